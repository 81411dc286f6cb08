// The incremental optimiser as the environment: it records what it is given and answers what the harness chose (also linked natively).
#include "isam2.h"
namespace isam2 {
std::vector<Update>& updates() { static std::vector<Update>& u = *new std::vector<Update>(); return u; }
std::vector<gtsam::Key>& marginalised() { static std::vector<gtsam::Key>& u = *new std::vector<gtsam::Key>(); return u; }
std::vector<gtsam::Key>& asked() { static std::vector<gtsam::Key>& u = *new std::vector<gtsam::Key>(); return u; }
gtsam::Values& estimate() { static gtsam::Values& u = *new gtsam::Values(); return u; }
gtsam::Matrix& covariance() { static gtsam::Matrix& u = *new gtsam::Matrix(); return u; }
}
namespace gtsam {
ISAM2::ISAM2(const ISAM2Params& p) : params_(p), update_count_(0) {}
ISAM2Result ISAM2::update(const NonlinearFactorGraph& f, const Values& v, const FactorIndices&, const boost::optional<FastMap<Key, int>>&, const boost::optional<FastList<Key>>&, const boost::optional<FastList<Key>>&, bool) { isam2::updates().push_back({f, v}); ISAM2Result r(false); r.cliques = isam2::updates().size(); return r; }
Values ISAM2::calculateEstimate() const { return isam2::estimate(); }
void ISAM2::marginalizeLeaves(const FastList<Key>& k, boost::optional<FactorIndices&>, boost::optional<FactorIndices&>) { for (const Key i : k) isam2::marginalised().push_back(i); }
Matrix ISAM2::marginalCovariance(Key k) const { isam2::asked().push_back(k); return isam2::covariance(); }
}
