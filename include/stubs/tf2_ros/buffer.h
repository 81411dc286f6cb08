// Stand-in for tf2_ros: the transform tree is the environment; it answers what the harness wants and keeps the questions.
#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>
#include <functional>
namespace tf2_ros {
struct Question { std::string target, source; ros::Time time; double timeout; };
inline std::vector<Question>& questions() { static std::vector<Question> v; return v; }
inline std::function<geometry_msgs::TransformStamped(const Question&)>& answer() { static std::function<geometry_msgs::TransformStamped(const Question&)> f; return f; }
class Buffer {
public:
    geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& time, const ros::Duration timeout = ros::Duration(0.0)) const {
        questions().push_back({target, source, time, timeout.toSec()}); return answer()(questions().back());
    }
};
}
