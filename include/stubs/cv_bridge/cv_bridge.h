// Stand-in for cv_bridge: the same pixels, as a message or as a matrix.
#pragma once
#include <opencv2/core.hpp>
#include <sensor_msgs/Image.h>
#include <stdexcept>
#include <string>
namespace sensor_msgs { namespace image_encodings { static const std::string MONO8 = "mono8", BGR8 = "bgr8", TYPE_32FC1 = "32FC1"; } }
namespace cv_bridge {
class Exception : public std::runtime_error { public: using std::runtime_error::runtime_error; };
inline int getCvType(const std::string& e) { if (e == "mono8") return CV_8UC1; if (e == "bgr8" || e == "rgb8") return CV_8UC3; if (e == "32FC1") return CV_32FC1; if (e == "mono16") return CV_16UC1; throw Exception("unrecognised encoding"); }
class CvImage {
public:
    std_msgs::Header header; std::string encoding; cv::Mat image;
    CvImage() {}
    CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& i = cv::Mat()) : header(h), encoding(e), image(i) {}
    void toImageMsg(sensor_msgs::Image& m) const {
        m.header = header; m.height = image.rows; m.width = image.cols; m.encoding = encoding; m.is_bigendian = 0; m.step = image.cols * image.elemSize(); m.data.resize(m.step * m.height);
        for (int y = 0; y < image.rows; ++y) for (std::size_t b = 0; b < m.step; ++b) m.data[y * m.step + b] = image.data[y * image.step + b];
    }
    sensor_msgs::ImagePtr toImageMsg() const { sensor_msgs::ImagePtr p(new sensor_msgs::Image()); toImageMsg(*p); return p; }
};
typedef ros::pointer<CvImage> CvImagePtr;
typedef ros::pointer<const CvImage> CvImageConstPtr;
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& m, const std::string& e = std::string()) {
    if (!e.empty() && e != m->encoding) throw Exception("conversion is not modelled");
    return CvImageConstPtr(new CvImage(m->header, m->encoding, cv::Mat(m->height, m->width, getCvType(m->encoding), const_cast<uint8_t*>(m->data.data()), m->step)));
}
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& m, const std::string& e = std::string()) { auto c = toCvShare(m, e); return CvImagePtr(new CvImage(c->header, c->encoding, c->image.clone())); }
}
