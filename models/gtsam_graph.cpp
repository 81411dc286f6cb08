// Bodies for out-of-line parts of GTSAM 4.2's factor graph containers; native replay uses the real library.
#include <gtsam/geometry/StereoCamera.h>
#include <gtsam/inference/Symbol.h>
#include <gtsam/navigation/BarometricFactor.h>
#include <gtsam/navigation/CombinedImuFactor.h>
#include <gtsam/navigation/NavState.h>
#include <gtsam/nonlinear/NonlinearFactorGraph.h>
#include <gtsam/nonlinear/Values.h>
namespace gtsam {
Key Symbol::key() const { return (Key(c_) << 56) | (Key(j_) & 0x00ffffffffffffffull); }
const char* ValuesKeyDoesNotExist::what() const noexcept { return "key does not exist"; }
const char* ValuesKeyAlreadyExists::what() const noexcept { return "key exists already"; }
const char* ValuesIncorrectType::what() const noexcept { return "incorrect type"; }
Values::Values(const Values& o) : values_(o.values_) {}
Values::Values(Values&& o) : values_() { values_.swap(o.values_); }
Values& Values::operator=(const Values& o) { values_ = o.values_; return *this; }
bool Values::exists(Key j) const { return values_.find(j) != values_.end(); }
const Value& Values::at(Key j) const { const auto it = values_.find(j); if (it == values_.end()) throw ValuesKeyDoesNotExist("at", j); return *it->second; }
void Values::insert(Key j, const Value& v) { if (exists(j)) throw ValuesKeyAlreadyExists(j); Key k = j; values_.insert(k, v.clone_()); }
void Values::insert(const Values& o) { for (const auto& kv : o) insert(kv.key, kv.value); }
void Values::update(Key j, const Value& v) { const auto it = values_.find(j); if (it == values_.end()) throw ValuesKeyDoesNotExist("update", j); if (typeid(*it->second) != typeid(v)) throw ValuesIncorrectType(j, typeid(*it->second), typeid(v)); values_.replace(it, v.clone_()); }
void Values::update(const Values& o) { for (const auto& kv : o) update(kv.key, kv.value); }
void Values::insert_or_assign(Key j, const Value& v) { if (exists(j)) update(j, v); else insert(j, v); }
void Values::erase(Key j) { const auto it = values_.find(j); if (it == values_.end()) throw ValuesKeyDoesNotExist("erase", j); values_.erase(it); }
StereoCamera::StereoCamera(const Pose3& p, const Cal3_S2Stereo::shared_ptr K) : leftCamPose_(p), K_(K) {}
Point3 StereoCamera::backproject(const StereoPoint2& z) const { const double Z = K_->baseline() * K_->fx() / (z.uL() - z.uR()); const double X = Z * (z.uL() - K_->px()) / K_->fx(), Y = Z * (z.v() - K_->py()) / K_->fy(); return leftCamPose_.transformFrom(Point3(X, Y, Z)); }
Rot3 const& NavState::attitude(OptionalJacobian<3, 9>) const { return R_; }
Point3 const& NavState::position(OptionalJacobian<3, 9>) const { return t_; }
Vector3 const& NavState::velocity(OptionalJacobian<3, 9>) const { return v_; }
CombinedImuFactor::CombinedImuFactor(Key a, Key b, Key c, Key d, Key e, Key f, const PreintegratedCombinedMeasurements& m) : Base(SharedNoiseModel(), a, b, c, d, e, f), _PIM_(m) {}
NonlinearFactor::shared_ptr CombinedImuFactor::clone() const { __builtin_trap(); }
void BarometricFactor::print(const std::string&, const KeyFormatter&) const { __builtin_trap(); }
}
namespace tbb { namespace detail { namespace r1 {
void* allocate_memory(std::size_t n) { return ::operator new(n); }
void deallocate_memory(void* p) { ::operator delete(p); }
} } }
