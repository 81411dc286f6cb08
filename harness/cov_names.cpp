// serpent: names and requirements of the covariance estimation options.
#include "sv.h"
#include <serpent/front_end/lidar/registration_covariance.hpp>
#include <string>
using namespace serpent;
namespace {
const char* M[3] = {"CONSTANT", "CENSI", "LLS"};
const CovarianceEstimationMethod Me[3] = {CovarianceEstimationMethod::CONSTANT, CovarianceEstimationMethod::CENSI, CovarianceEstimationMethod::LLS};
const char* D[4] = {"POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR"};
const CovarianceEstimationModel De[4] = {CovarianceEstimationModel::POINT_TO_POINT_LINEARISED, CovarianceEstimationModel::POINT_TO_POINT_NONLINEAR, CovarianceEstimationModel::POINT_TO_PLANE_LINEARISED, CovarianceEstimationModel::POINT_TO_PLANE_NONLINEAR};
const char* Q[4] = {"CONSTANT", "VOXEL_SIZE", "RANGE", "RANGE_BIAS"};
const PointCovarianceMethod Qe[4] = {PointCovarianceMethod::CONSTANT, PointCovarianceMethod::VOXEL_SIZE, PointCovarianceMethod::RANGE, PointCovarianceMethod::RANGE_BIAS};
// every string that differs from a name in one character, or is one shorter or longer, is not a name
template<typename F> void perturbed(const char* name, F convert) {
    std::string t(name); const int len = (int)t.size(), how = sv_choice("how", 3);
    if (how == 0) t.resize(len - 1);
    else if (how == 1) t.push_back((char)sv_u8("c", 1, 127));
    else { const int at = sv_choice("at", 5) * (len - 1) / 4; const unsigned char ch = sv_u8("c", 1, 127); sv_assume(ch != (unsigned char)t[at]); t[at] = (char)ch; }
    bool threw = false; try { convert(t); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw || t == "RANGE" || t == "RANGE_BIAS", "unknown names are rejected");
}
}
extern "C" {
void method_names() {
    const int i = sv_choice("i", 3); sv_check(to_covariance_estimation_method(M[i]) == Me[i], "a name selects its method"); sv_check(to_string(Me[i]) == M[i], "a method prints its name");
    perturbed(M[i], [](const std::string& s) { to_covariance_estimation_method(s); }); sv_cover("method_names:end");
}
void model_names() {
    const int i = sv_choice("i", 4); sv_check(to_covariance_estimation_model(D[i]) == De[i], "a name selects its model"); sv_check(to_string(De[i]) == D[i], "a model prints its name");
    perturbed(D[i], [](const std::string& s) { to_covariance_estimation_model(s); }); sv_cover("model_names:end");
}
void point_names() {
    const int i = sv_choice("i", 4); sv_check(to_point_covariance_method(Q[i]) == Qe[i], "a name selects its point covariance"); sv_check(to_string(Qe[i]) == Q[i], "a point covariance prints its name");
    perturbed(Q[i], [](const std::string& s) { to_point_covariance_method(s); }); sv_cover("point_names:end");
}
void out_of_range() {
    const int v = sv_i32("v", -100, 100); bool a = false, b = false, c = false, d = false, e = false;
    try { to_string(static_cast<CovarianceEstimationMethod>(v)); } catch (const std::runtime_error&) { a = true; }
    try { to_string(static_cast<CovarianceEstimationModel>(v)); } catch (const std::runtime_error&) { b = true; }
    try { to_string(static_cast<PointCovarianceMethod>(v)); } catch (const std::runtime_error&) { c = true; }
    try { requires_unit_vectors(static_cast<CovarianceEstimationMethod>(v), PointCovarianceMethod::RANGE); } catch (const std::runtime_error&) { d = true; }
    try { requires_unit_vectors(CovarianceEstimationMethod::LLS, static_cast<PointCovarianceMethod>(v)); } catch (const std::runtime_error&) { e = true; }
    sv_check(a == (v < 0 || v > 2), "only the three methods have names"); sv_check(b == (v < 0 || v > 3), "only the four models have names"); sv_check(c == (v < 0 || v > 3), "only the four point covariances have names");
    sv_check(d == (v < 0 || v > 2), "unknown methods are refused"); sv_check(e == (v < 0 || v > 3), "unknown point covariances are refused"); sv_cover("out_of_range:end");
}
void unit_vectors() {
    const int i = sv_choice("i", 3), j = sv_choice("j", 4); const bool want = i != 0 && j >= 2;
    sv_check(requires_unit_vectors(Me[i], Qe[j]) == want, "unit vectors are needed exactly by estimated covariances with range noise"); sv_check(requires_unit_vectors(std::string(M[i]), std::string(Q[j])) == want, "unit vectors are needed exactly by estimated covariances with range noise");
    sv_cover("unit_vectors:end");
}
}
