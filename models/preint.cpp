// Inertial preintegration as the environment: it records what it is given and predicts what the harness chose (also linked natively).
#include "preint.h"
#include <stdexcept>
namespace preint {
std::vector<Event>& log() { static std::vector<Event>& v = *new std::vector<Event>(); return v; }
std::vector<gtsam::NavState>& answers() { static std::vector<gtsam::NavState>& v = *new std::vector<gtsam::NavState>(); return v; }
std::function<gtsam::NavState(const Event&)>& answer() { static auto& f = *new std::function<gtsam::NavState(const Event&)>(); return f; }
static std::size_t asked = 0;
static void params(Event& e, const gtsam::PreintegrationParams* p) { e.accelerometer = p->accelerometerCovariance; e.gyroscope = p->gyroscopeCovariance; }
}
namespace gtsam {
void PreintegratedCombinedMeasurements::integrateMeasurement(const Vector3& a, const Vector3& w, const double dt) {
    if (dt <= 0) throw std::runtime_error("PreintegratedCombinedMeasurements::integrateMeasurement: dt <=0");  // (as GTSAM)
    preint::Event e; e.kind = 'm'; e.bias = biasHat_; e.acceleration = a; e.turning = w; e.dt = dt; preint::params(e, p_.get()); preint::log().push_back(e); deltaTij_ += dt; for (int i = 0; i < 15; ++i) preintMeasCov_(i, i) += 1;
}
void PreintegratedCombinedMeasurements::resetIntegration() { preint::Event e; e.kind = 'r'; e.bias = biasHat_; preint::params(e, p_.get()); preint::log().push_back(e); deltaTij_ = 0; preintMeasCov_.setZero(); }
NavState PreintegrationBase::predict(const NavState& s, const imuBias::ConstantBias& b, OptionalJacobian<9, 9>, OptionalJacobian<9, 6>) const {
    preint::Event e; e.kind = 'p'; e.bias = b; e.position = s.position(); e.velocity = s.velocity(); e.attitude = s.attitude().matrix(); e.dt = deltaTij_; preint::params(e, static_cast<const PreintegrationParams*>(p_.get())); preint::log().push_back(e); if (preint::answer()) return preint::answer()(e);
    const std::size_t n = preint::answers().size(), i = preint::asked++; return preint::answers()[i < n ? i : n - 1];
}
}
