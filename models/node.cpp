// Bodies for out-of-line parts of GTSAM 4.2 that the back end node reaches; native replay uses the real library.
#include <gtsam/linear/LossFunctions.h>
#include <gtsam/linear/NoiseModel.h>
#include <gtsam/navigation/CombinedImuFactor.h>
#include <gtsam/nonlinear/ISAM2Params.h>
#include <cmath>
#include <stdexcept>
namespace gtsam {
namespace noiseModel {
Vector Base::sigmas() const { throw std::invalid_argument("Base::sigmas(): sigmas() not implemented for this noise model"); }
// (the model keeps the covariance where the library keeps a square root of the information)
Gaussian::shared_ptr Gaussian::Covariance(const Matrix& c, bool) { if (c.rows() != c.cols()) throw std::invalid_argument("Gaussian::Covariance"); return shared_ptr(new Gaussian(c.rows(), c)); }
void Gaussian::print(const std::string&) const {}
Matrix Gaussian::covariance() const { if (const Diagonal* d = dynamic_cast<const Diagonal*>(this)) { const int n = dim(); Matrix c = Matrix::Zero(n, n); for (int i = 0; i < n; ++i) c(i, i) = d->sigmas_(i) * d->sigmas_(i); return c; } return *sqrt_information_; }
Vector Gaussian::sigmas() const { const Matrix c = covariance(); Vector v(c.rows()); for (int i = 0; i < c.rows(); ++i) v(i) = std::sqrt(c(i, i)); return v; }
Diagonal::Diagonal(const Vector& s) : Gaussian(s.size()), sigmas_(s) {}
void Diagonal::print(const std::string&) const {}
Diagonal::shared_ptr Diagonal::Sigmas(const Vector& s, bool) { return shared_ptr(new Diagonal(s)); }
void Isotropic::print(const std::string&) const {}
Isotropic::shared_ptr Isotropic::Sigma(size_t n, double s, bool) { return shared_ptr(new Isotropic(n, s)); }
Isotropic::shared_ptr Isotropic::Variance(size_t n, double v, bool) { return shared_ptr(new Isotropic(n, std::sqrt(v))); }
void Robust::print(const std::string&) const {}
Robust::shared_ptr Robust::Create(const RobustModel::shared_ptr& r, const NoiseModel::shared_ptr n) { return shared_ptr(new Robust(r, n)); }
namespace mEstimator {
#define EST(T, f) T::T(double v, const ReweightScheme r) : Base(r), f(v) {} double T::weight(double) const { __builtin_trap(); } T::shared_ptr T::Create(double v, const ReweightScheme r) { return shared_ptr(new T(v, r)); }
Cauchy::Cauchy(double v, const ReweightScheme r) : Base(r), k_(v), ksquared_(v * v) {} double Cauchy::weight(double) const { __builtin_trap(); } Cauchy::shared_ptr Cauchy::Create(double v, const ReweightScheme r) { return shared_ptr(new Cauchy(v, r)); }
Tukey::Tukey(double v, const ReweightScheme r) : Base(r), c_(v), csquared_(v * v) {} double Tukey::weight(double) const { __builtin_trap(); } Tukey::shared_ptr Tukey::Create(double v, const ReweightScheme r) { return shared_ptr(new Tukey(v, r)); }
Welsch::Welsch(double v, const ReweightScheme r) : Base(r), c_(v), csquared_(v * v) {} double Welsch::weight(double) const { __builtin_trap(); } Welsch::shared_ptr Welsch::Create(double v, const ReweightScheme r) { return shared_ptr(new Welsch(v, r)); }
EST(Fair, c_) EST(Huber, k_) EST(GemanMcClure, c_) EST(DCS, c_) EST(L2WithDeadZone, k_)
void Null::print(const std::string&) const {}
Null::shared_ptr Null::Create() { return shared_ptr(new Null()); }
}
}
TangentPreintegration::TangentPreintegration(const boost::shared_ptr<Params>& p, const imuBias::ConstantBias& b) : PreintegrationBase(p, b) { preintegrated_.setZero(); }
PreintegrationBase::PreintegrationBase(const boost::shared_ptr<Params>& p, const imuBias::ConstantBias& b) : p_(p), biasHat_(b), deltaTij_(0) {}
void PreintegrationParams::print(const std::string&) const {}
void PreintegrationCombinedParams::print(const std::string&) const {}
void PreintegratedRotationParams::print(const std::string&) const {}
ISAM2Params::Factorization ISAM2Params::factorizationTranslator(const std::string& s) { return s == "QR" ? QR : CHOLESKY; }
std::string ISAM2Params::factorizationTranslator(const Factorization& f) { return f == QR ? "QR" : "CHOLESKY"; }
DoglegOptimizerImpl::TrustRegionAdaptationMode ISAM2DoglegParams::adaptationModeTranslator(const std::string& s) const { return s == "SEARCH_REDUCE_ONLY" ? DoglegOptimizerImpl::SEARCH_REDUCE_ONLY : DoglegOptimizerImpl::SEARCH_EACH_ITERATION; }
std::string ISAM2DoglegParams::adaptationModeTranslator(const DoglegOptimizerImpl::TrustRegionAdaptationMode& m) const { return m == DoglegOptimizerImpl::SEARCH_REDUCE_ONLY ? "SEARCH_REDUCE_ONLY" : "SEARCH_EACH_ITERATION"; }
}
