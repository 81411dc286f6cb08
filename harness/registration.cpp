// serpent / pointcloud_tools: correspondences of a finished registration and the covariance estimates assembled from them.
#include "sv_eigen.h"
#include <serpent/front_end/lidar/registration_covariance.hpp>
#include <limits>
typedef Eigen::Matrix<double, 6, 6> M6;
typedef PointNormalUnit P;
typedef pcl::PointCloud<P> C;
namespace {
static const int MAXN = 4;
// The nearest-neighbour search is the environment: any answer (point, squared distance, or nothing) is possible. It records its queries.
struct Query { float p[3]; bool found; int index; float sq; };
template<typename Point> struct Search : pcl::search::KdTree<Point> {
    Query* log; int* count; int points; const char* tag; bool concrete; int (*pick)(int);
    Search(Query* l, int* c, int n, const char* t) : log(l), count(c), points(n), tag(t) {}
    int nearestKSearch(const Point& point, int k, pcl::Indices& k_indices, std::vector<float>& k_sqr_distances) const override {
        const int c = (*count)++; sv_check(c < MAXN, "one search per point"); sv_check(k == 1, "nearest neighbour asked for");
        Query& q = log[c]; q.p[0] = point.x; q.p[1] = point.y; q.p[2] = point.z;
        const int answer = sv_choice(sv::idx(tag, c).c_str(), points + 1);
        q.found = answer < points; q.index = answer;
        if (!q.found) { k_indices.clear(); k_sqr_distances.clear(); return 0; }
        q.sq = sv_realf(sv::idx("sq", c).c_str(), 0, 100);
        k_indices.resize(1); k_sqr_distances.resize(1); k_indices[0] = q.index; k_sqr_distances[0] = q.sq; return 1;
    }
    bool setInputCloud(const typename pcl::PointCloud<Point>::ConstPtr& cloud, const pcl::IndicesConstPtr& indices) override { this->input_ = cloud; this->indices_ = indices; return true; }
};
template<typename Scalar, typename S = P, typename T = P> struct Reg : pcl::Registration<S, T, Scalar> {
    void computeTransformation(pcl::PointCloud<S>&, const Eigen::Matrix<Scalar, 4, 4>&) override {}
    void set(const Eigen::Matrix<Scalar, 4, 4>& m) { this->final_transformation_ = m; }
};
template<typename Point> void place(Point& q, const char* n, int k) { q.x = sv_realf(sv::idx(n, k, 0).c_str(), -8, 8); q.y = sv_realf(sv::idx(n, k, 1).c_str(), -8, 8); q.z = sv_realf(sv::idx(n, k, 2).c_str(), -8, 8); }
void unit(P& q, const char* n, int k) { q.ux = sv_realf(sv::idx(n, k, 0).c_str(), -1, 1); q.uy = sv_realf(sv::idx(n, k, 1).c_str(), -1, 1); q.uz = sv_realf(sv::idx(n, k, 2).c_str(), -1, 1); }

// ---- correspondences ----
// sel selects which source points the registration uses.
template<typename Scalar> void correspondences(bool reciprocal, const std::vector<std::vector<int>>& sels, int ns, int nt, const char*) {
    const std::vector<int>& sel = sels[sv_choice("selection", (int)sels.size())];
    C::Ptr src(new C), tgt(new C);
    for (int i = 0; i < ns; ++i) { P q{}; place(q, "s", i); src->push_back(q); }
    for (int i = 0; i < nt; ++i) { P q{}; place(q, "t", i); tgt->push_back(q); }
    const Eigen::Isometry3d T = sv::isometry("T", -8, 8);
    const double range = sv_real("range", 0.01, 10);
    Reg<Scalar> reg; reg.setInputSource(src); reg.setInputTarget(tgt); reg.set(T.matrix().cast<Scalar>()); reg.setMaxCorrespondenceDistance(range);
    pcl::IndicesPtr ind(new pcl::Indices(sel.begin(), sel.end())); reg.setIndices(ind);
    Query log[MAXN]; int n = 0;
    typename Reg<Scalar>::KdTreePtr tt(new Search<P>(log, &n, reciprocal ? (int)sel.size() : nt, "nn")), ts(new Search<P>(log, &n, reciprocal ? ns : nt, "nn"));
    tt->setInputCloud(tgt, pcl::IndicesConstPtr()); ts->setInputCloud(src, ind);
    reg.setSearchMethodTarget(tt); reg.setSearchMethodSource(ts);
    const auto cs = pct::compute_registration_correspondences<P, P, Scalar>(reg, reciprocal);
    const int queries = reciprocal ? nt : (int)sel.size();
    sv_check(n == queries, "every selected point is searched once");
    std::size_t out = 0; sv_tol(1e-3);
    for (int i = 0; i < queries; ++i) {
        const P& p = reciprocal ? (*tgt)[i] : (*src)[sel[i]];
        const Eigen::Vector3d v = (reciprocal ? T.inverse() : T) * Eigen::Vector3d(p.x, p.y, p.z);
        for (int k = 0; k < 3; ++k) sv_eq(log[i].p[k], v[k], "the search looks for the transformed point");
        if (!log[i].found) continue;
        sv_assume(std::abs(log[i].sq - range * range) > 1e-4);
        if (sv_split(log[i].sq > range * range)) continue;
        sv_check(out < cs->size(), "pairs within range are kept");
        const auto& c = (*cs)[out++];
        sv_check(c.index_query == (reciprocal ? log[i].index : sel[i]), "the pair names the source point by its position in the source cloud");
        sv_check(c.index_match == (reciprocal ? i : log[i].index), "the pair names the target point");
        sv_eq((double)c.distance * c.distance, log[i].sq, "the pair carries the distance"); sv_check(c.distance >= 0, "the pair carries the distance");
    }
    sv_check(out == cs->size(), "no other pairs");
}

// ---- assembly of the covariances, for any model ----
double Hd[2][2][6], Hc[2][2], Jt[2][2][6][6]; int couple_a, couple_b;
void table(int ns, int nt) {
    couple_a = sv_choice("coupled", 3); couple_b = couple_a == 0 ? 1 : couple_a == 1 ? 5 : 4; couple_a = couple_a == 2 ? 3 : couple_a == 1 ? 2 : 0;
    for (int s = 0; s < ns; ++s) for (int t = 0; t < nt; ++t) {
        const std::string k = std::to_string(s) + std::to_string(t) + "_";
        for (int i = 0; i < 6; ++i) Hd[s][t][i] = sv_real(sv::idx(("h" + k).c_str(), i).c_str(), 1, 10);
        Hc[s][t] = sv_real(("c" + k).c_str(), -0.5, 0.5);
        for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) Jt[s][t][i][j] = sv_real(sv::idx(("J" + k).c_str(), i, j).c_str(), -10, 10);
    }
}
Eigen::Matrix4d expected_tf;
void hess(int s, int t, M6& H) { H.setZero(); for (int i = 0; i < 6; ++i) H(i, i) = Hd[s][t][i]; H(couple_a, couple_b) = H(couple_b, couple_a) = Hc[s][t]; }
template<typename Point> struct TableModel {
    using PointSource = Point; using PointTarget = Point;
    static void ids(const Point& s, const Point& t, const eigen_ext::PrecomputedTransformComponents<double>& tf, int& a, int& b) {
        a = (int)s.z; b = (int)t.z - 10; sv_check(a >= 0 && a < 2 && b >= 0 && b < 2, "source and target points keep their roles");
        sv::eq(tf.T(), expected_tf, "derivatives are taken at the final transformation");
    }
    static bool process_correspondence(const Point& s, const Point& t, const eigen_ext::PrecomputedTransformComponents<double>& tf, M6& H, M6& J) {
        int a, b; ids(s, t, tf, a, b); hess(a, b, H); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) J(i, j) = Jt[a][b][i][j]; return true;
    }
    static bool process_correspondence(const Point& s, const Point& t, const eigen_ext::PrecomputedTransformComponents<double>& tf, M6& H) { int a, b; ids(s, t, tf, a, b); hess(a, b, H); return true; }
};
template<typename Point> void mark(Point& q, double id) { q.z = id; }
struct Case { int n; int s[2], t[2]; };   // pairs that must be used
// Up to two source points, each matched with any target point or none or one out of range.
template<typename Scalar, typename Point> void setup(Reg<Scalar, Point, Point>& reg, Case& c, int ns, int nt, Query* log, int* count) {
    typedef pcl::PointCloud<Point> PC;
    typename PC::Ptr src(new PC), tgt(new PC);
    for (int i = 0; i < ns; ++i) { Point q{}; q.x = q.y = 0; mark(q, i); src->push_back(q); }
    for (int i = 0; i < nt; ++i) { Point q{}; q.x = q.y = 0; mark(q, 10 + i); tgt->push_back(q); }
    Eigen::Matrix<Scalar, 4, 4> T = Eigen::Matrix<Scalar, 4, 4>::Identity();
    T(0, 1) = -1; T(1, 0) = 1; T(0, 0) = T(1, 1) = 0; T(0, 3) = 1.5; T(2, 3) = -2; expected_tf = T.template cast<double>();
    pcl::IndicesPtr ind(new pcl::Indices); for (int i = 0; i < ns; ++i) ind->push_back(i);
    reg.setInputSource(src); reg.setInputTarget(tgt); reg.set(T); reg.setMaxCorrespondenceDistance(5); reg.setIndices(ind);
    typename Reg<Scalar, Point, Point>::KdTreePtr tree(new Search<Point>(log, count, nt, "nn")); tree->setInputCloud(tgt, pcl::IndicesConstPtr()); reg.setSearchMethodTarget(tree);
}
void pairs(Case& c, const Query* log, int n) {
    c.n = 0;
    for (int i = 0; i < n; ++i) { if (!log[i].found) continue; sv_assume(std::abs(log[i].sq - 25) > 1e-3); if (sv_split(log[i].sq > 25)) continue; c.s[c.n] = i; c.t[c.n] = log[i].index; ++c.n; }
}
M6 inverse_hessian(const Case& c) {
    double d[6] = {0, 0, 0, 0, 0, 0}, k = 0; M6 I; I.setZero();
    for (int p = 0; p < c.n; ++p) { for (int i = 0; i < 6; ++i) d[i] += Hd[c.s[p]][c.t[p]][i]; k += Hc[c.s[p]][c.t[p]]; }
    for (int i = 0; i < 6; ++i) I(i, i) = 1 / d[i];
    const double det = d[couple_a] * d[couple_b] - k * k;
    I(couple_a, couple_a) = d[couple_b] / det; I(couple_b, couple_b) = d[couple_a] / det; I(couple_a, couple_b) = I(couple_b, couple_a) = -k / det;
    return I;
}
// sum over pairs of stacked coordinates: cov = I (J S J^T) I
template<typename F> void expect(const M6& got, const Case& c, F sigma) {
    const M6 I = inverse_hessian(c); M6 M; M.setZero();
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
        double s = 0;
        for (int p = 0; p < c.n; ++p) for (int q = 0; q < c.n; ++q) for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) { const double v = sigma(p, a, q, b); s += Jt[c.s[p]][c.t[p]][i][a] * v * Jt[c.s[q]][c.t[q]][j][b]; }
        M(i, j) = s;
    }
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
        double s = 0; for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) s += I(i, a) * M(a, b) * I(b, j);
        sv_eq(got(i, j), s, "covariance");
    }
}
template<typename Scalar> void iid(int ns, int nt) {
    Reg<Scalar> reg; Case c; Query log[MAXN]; int n = 0, count = -1; table(ns, nt); setup(reg, c, ns, nt, log, &n); const double var = sv_real("var", 0.001, 4);
    const M6 m = serpent::censi_iid_covariance<TableModel<P>, Scalar>(reg, var, count);
    pairs(c, log, n); sv_check(n == ns, "every source point considered"); sv_check(count == c.n, "number of correspondences reported"); if (!c.n) return;
    sv_tol(1e-3); expect(m, c, [var](int p, int a, int q, int b) { return p == q && a == b ? var : 0; });
    sv_cover("iid:used");
}
template<typename Scalar> void lls(int ns, int nt) {
    Reg<Scalar> reg; Case c; Query log[MAXN]; int n = 0, count = -1; table(ns, nt); setup(reg, c, ns, nt, log, &n); const double var = sv_real("var", 0.001, 4);
    const M6 m = serpent::lls_iid_covariance<TableModel<P>, Scalar>(reg, var, count);
    pairs(c, log, n); sv_check(n == ns, "every source point considered"); sv_check(count == c.n, "number of correspondences reported"); if (!c.n) return;
    const M6 I = inverse_hessian(c); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) sv_eq(m(i, j), var * I(i, j), "covariance");
    sv_cover("lls:used");
}
double U[2][2][3]; // [role][point][coordinate]
void units(Reg<float>& reg, int ns, int nt) {
    C& s = const_cast<C&>(*reg.getInputSource()); C& t = const_cast<C&>(*reg.getInputTarget());
    for (int i = 0; i < ns; ++i) { unit(s[i], "us", i); U[0][i][0] = s[i].ux; U[0][i][1] = s[i].uy; U[0][i][2] = s[i].uz; }
    for (int i = 0; i < nt; ++i) { unit(t[i], "ut", i); U[1][i][0] = t[i].ux; U[1][i][1] = t[i].uy; U[1][i][2] = t[i].uz; }
}
double u(const Case& c, int p, int a) { return a < 3 ? U[0][c.s[p]][a] : U[1][c.t[p]][a - 3]; }
void range(int ns, int nt) {
    Reg<float> reg; Case c; Query log[MAXN]; int n = 0, count = -1; table(ns, nt); setup(reg, c, ns, nt, log, &n); units(reg, ns, nt); const double var = sv_real("var", 0.001, 4);
    const M6 m = serpent::censi_range_covariance<TableModel<P>, float>(reg, var, count);
    pairs(c, log, n); sv_check(count == c.n, "number of correspondences reported"); if (!c.n) return;
    sv_tol(1e-3); expect(m, c, [&](int p, int a, int q, int b) { return p == q && a / 3 == b / 3 ? var * u(c, p, a) * u(c, p, b) : 0; });
    sv_cover("range:used");
}
void bias(int ns, int nt) {
    Reg<float> reg; Case c; Query log[MAXN]; int n = 0, count = -1; table(ns, nt); setup(reg, c, ns, nt, log, &n); units(reg, ns, nt); const double var = sv_real("var", 0.001, 4), bv = sv_real("bias", 0.001, 4);
    const M6 m = serpent::censi_range_bias_covariance<TableModel<P>, float>(reg, var, bv, count);
    pairs(c, log, n); sv_check(count == c.n, "number of correspondences reported"); if (!c.n) return;
    sv_tol(1e-3); expect(m, c, [&](int p, int a, int q, int b) { return bv * u(c, p, a) * u(c, q, b) + (p == q && a == b ? var * u(c, p, a) * u(c, p, a) : 0); });
    sv_cover("bias:used");
}
}
extern "C" {
void corr_forward() { correspondences<float>(false, {{0, 1}, {0}}, 2, 2, ""); sv_cover("corr_forward:end"); }
void corr_subset() { correspondences<float>(false, {{1}, {2, 0}, {1, 2}}, 3, 1, ""); sv_cover("corr_subset:end"); }
void corr_double() { correspondences<double>(false, {{0}, {1}}, 2, 2, ""); sv_cover("corr_double:end"); }
void corr_reciprocal() { correspondences<float>(true, {{0, 1}, {1}, {0}}, 2, 2, ""); sv_cover("corr_reciprocal:end"); }
void corr_reciprocal_restricted() {
    C::Ptr src(new C), tgt(new C); P q{}; src->push_back(q); src->push_back(q); tgt->push_back(q);
    Reg<float> reg; reg.setInputSource(src); reg.setInputTarget(tgt); reg.set(Eigen::Matrix4f::Identity()); pcl::IndicesPtr ind(new pcl::Indices(1, 1)); reg.setIndices(ind);
    Query log[MAXN]; int n = 0; Reg<float>::KdTreePtr ts(new Search<P>(log, &n, 2, "nn")); ts->setInputCloud(src, pcl::IndicesConstPtr()); reg.setSearchMethodSource(ts);
    bool threw = false; try { pct::compute_registration_correspondences<P, P, float>(reg, true); } catch (const std::runtime_error&) { threw = true; }
    sv_check(threw, "a reciprocal search over other points than the selected ones is refused"); sv_cover("corr_reciprocal_restricted:end");
}
void iid_two() { iid<float>(2, 2); sv_cover("iid_two:end"); }
void iid_double() { iid<double>(1, 2); sv_cover("iid_double:end"); }
void lls_two() { lls<float>(2, 2); sv_cover("lls_two:end"); }
void lls_double() { lls<double>(1, 2); sv_cover("lls_double:end"); }
void range_one() { range(1, 2); sv_cover("range_one:end"); }
void range_two() { range(2, 2); sv_cover("range_two:end"); }
void bias_one() { bias(1, 2); sv_cover("bias_one:end"); }
void bias_two() { bias(2, 2); sv_cover("bias_two:end"); }
void range_other_points() {
    Reg<float, pcl::PointXYZ, pcl::PointXYZ> reg; int count = 0, threw = 0;
    try { serpent::censi_range_covariance<TableModel<pcl::PointXYZ>, float>(reg, 1, count); } catch (const std::runtime_error&) { ++threw; }
    try { serpent::censi_range_bias_covariance<TableModel<pcl::PointXYZ>, float>(reg, 1, 1, count); } catch (const std::runtime_error&) { ++threw; }
    sv_check(threw == 2, "range covariance needs unit vectors"); sv_cover("range_other_points:end");
}
}
