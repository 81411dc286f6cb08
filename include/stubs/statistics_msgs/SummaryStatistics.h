// Stand-in for the header generated from the message definition statistics_msgs/SummaryStatistics.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
namespace statistics_msgs {
struct SummaryStatistics {
    std::string label;
    double min = 0;
    double max = 0;
    double mean = 0;
    double variance = 0;
    uint64_t count = 0;
    typedef ros::pointer<SummaryStatistics> Ptr;
    typedef ros::pointer<const SummaryStatistics> ConstPtr;
};
typedef ros::pointer<SummaryStatistics> SummaryStatisticsPtr;
typedef ros::pointer<const SummaryStatistics> SummaryStatisticsConstPtr;
}
