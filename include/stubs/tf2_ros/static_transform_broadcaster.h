#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>
namespace tf2_ros {
class StaticTransformBroadcaster {
public:
    void sendTransform(const geometry_msgs::TransformStamped& t) { ros::Publisher("/tf_static").publish(t); }
    void sendTransform(const std::vector<geometry_msgs::TransformStamped>& v) { for (auto& t : v) sendTransform(t); }
};
}
