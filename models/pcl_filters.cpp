// Bodies for the filters of PCL 1.14 on binary clouds, as in its sources (CropBox, PassThrough); the voxel grid, the outlier
// removal and the random sample are the environment: they give an empty cloud. Native replay uses the real library.
#include <pcl/filters/crop_box.h>
#include <pcl/filters/passthrough.h>
#include <pcl/filters/random_sample.h>
#include <pcl/filters/statistical_outlier_removal.h>
#include <pcl/filters/voxel_grid.h>
#include <cmath>
#include <cstring>
#include <ctime>
extern "C" time_t time(time_t* t) noexcept { if (t) *t = 1790000000; return 1790000000; }
namespace pcl {
typedef PCLPointCloud2 C;
PCLBase<C>::PCLBase() : use_indices_(false), fake_indices_(false), x_idx_(UNAVAILABLE), y_idx_(UNAVAILABLE), z_idx_(UNAVAILABLE), x_field_name_("x"), y_field_name_("y"), z_field_name_("z") {}
static int bytes(int t) { return t == PCLPointField::INT8 || t == PCLPointField::UINT8 || t == PCLPointField::BOOL ? 1 : t == PCLPointField::INT16 || t == PCLPointField::UINT16 ? 2 : t == PCLPointField::FLOAT64 || t == PCLPointField::INT64 || t == PCLPointField::UINT64 ? 8 : 4; }
void PCLBase<C>::setInputCloud(const PCLPointCloud2ConstPtr& cloud) {
    input_ = cloud; for (int d = 0; d < (int)cloud->fields.size(); ++d) { if (cloud->fields[d].name == x_field_name_) x_idx_ = d; if (cloud->fields[d].name == y_field_name_) y_idx_ = d; if (cloud->fields[d].name == z_field_name_) z_idx_ = d; }
    field_sizes_.resize(input_->fields.size()); for (std::size_t d = 0; d < input_->fields.size(); ++d) field_sizes_[d] = bytes(input_->fields[d].datatype);
}
bool PCLBase<C>::initCompute() {
    if (!input_) return false;
    if (!indices_) { fake_indices_ = true; indices_.reset(new Indices); }
    const std::size_t n = input_->width * input_->height;
    if (fake_indices_ && indices_->size() != n) { indices_->resize(n); for (std::size_t i = 0; i < n; ++i) (*indices_)[i] = (int)i; }
    return true;
}
bool PCLBase<C>::deinitCompute() { return true; }
void Filter<C>::filter(C& output) {
    if (!initCompute()) return;
    if (input_.get() == &output) { C t; applyFilter(t); t.header = input_->header; output = t; } else { output.header = input_->header; applyFilter(output); }
    deinitCompute();
}
void FilterIndices<C>::filter(Indices& indices) { indices.clear(); if (!initCompute()) return; applyFilter(indices); deinitCompute(); }
static void copy(const C& in, const Indices& k, C& out) {
    out.header = in.header; out.height = 1; out.width = (uindex_t)k.size(); out.fields = in.fields; out.is_bigendian = in.is_bigendian; out.point_step = in.point_step; out.row_step = in.point_step * (uindex_t)k.size(); out.is_dense = in.is_dense;
    out.data.resize(k.size() * out.point_step); for (std::size_t i = 0; i < k.size(); ++i) memcpy(&out.data[i * out.point_step], &in.data[k[i] * (std::size_t)in.point_step], in.point_step);
}
static float at(const C& c, std::size_t p, int f) { float v; memcpy(&v, &c.data[p * c.point_step + c.fields[f].offset], 4); return v; }
void CropBox<C>::applyFilter(C& output) { if (keep_organized_) __builtin_trap(); Indices k; applyFilter(k); copy(*input_, k, output); }
void CropBox<C>::applyFilter(Indices& indices) {
    indices.clear(); if (rotation_ != Eigen::Vector3f::Zero()) __builtin_trap();
    for (int i : *indices_) {
        Eigen::Vector3f p(at(*input_, i, x_idx_), at(*input_, i, y_idx_), at(*input_, i, z_idx_));
        if (!input_->is_dense && !(std::isfinite(p[0]) && std::isfinite(p[1]) && std::isfinite(p[2]))) continue;
        if (!(transform_.matrix().isIdentity())) p = transform_ * p;
        p -= translation_;
        const bool out = p[0] < min_pt_[0] || p[1] < min_pt_[1] || p[2] < min_pt_[2] || p[0] > max_pt_[0] || p[1] > max_pt_[1] || p[2] > max_pt_[2];
        if (out == negative_) indices.push_back(i);
    }
}
void PassThrough<C>::applyFilter(Indices&) { __builtin_trap(); }
void PassThrough<C>::applyFilter(C& output) {
    if (keep_organized_) __builtin_trap();
    output.data.clear(); Indices k; int f = -1; for (int d = 0; d < (int)input_->fields.size(); ++d) if (input_->fields[d].name == filter_field_name_) f = d;
    if (input_->width * input_->height == 0) { output.width = output.height = 0; output.data.clear(); return; }
    for (std::size_t i = 0; i < input_->width * input_->height; ++i) {
        if (!(std::isfinite(at(*input_, i, x_idx_)) && std::isfinite(at(*input_, i, y_idx_)) && std::isfinite(at(*input_, i, z_idx_)))) continue;
        if (!filter_field_name_.empty()) { if (f < 0) { output.width = output.height = 0; output.data.clear(); return; } const float v = at(*input_, i, f); if (negative_ ? (v < filter_limit_max_ && v > filter_limit_min_) : (v > filter_limit_max_ || v < filter_limit_min_)) continue; }
        k.push_back((int)i);
    }
    const auto h = output.header; copy(*input_, k, output); output.header = h; output.is_dense = true;
}
void RandomSample<C>::applyFilter(C&) {}
void RandomSample<C>::applyFilter(Indices&) {}
void StatisticalOutlierRemoval<C>::applyFilter(C&) {}
void StatisticalOutlierRemoval<C>::applyFilter(Indices&) {}
void StatisticalOutlierRemoval<C>::generateStatistics(double&, double&, double&, std::vector<float>&) {}
void VoxelGrid<C>::applyFilter(C&) {}
}
