// Stand-in for image_transport: images are sent as they are.
#pragma once
#include <ros/ros.h>
#include <sensor_msgs/Image.h>
#include <string>
namespace image_transport {
class Publisher { ros::Publisher p; public: Publisher() {} explicit Publisher(const std::string& t) : p(t) {} std::string getTopic() const { return p.getTopic(); } int getNumSubscribers() const { return 1; } template<typename M> void publish(const M& m) const { p.publish(m); } };
typedef ros::Subscriber Subscriber;
class ImageTransport {
    ros::NodeHandle n;
public:
    explicit ImageTransport(const ros::NodeHandle& h) : n(h) {}
    Publisher advertise(const std::string& t, int, bool = false) { return Publisher(t); }
    template<typename C> Subscriber subscribe(const std::string& t, int q, void (C::*f)(const sensor_msgs::ImageConstPtr&), C* o) { return n.subscribe<sensor_msgs::Image>(t, q, f, o); }
};
}
