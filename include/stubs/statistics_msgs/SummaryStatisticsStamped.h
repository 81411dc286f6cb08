// Stand-in for the header generated from the message definition statistics_msgs/SummaryStatisticsStamped.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <statistics_msgs/SummaryStatistics.h>
#include <std_msgs/Header.h>
namespace statistics_msgs {
struct SummaryStatisticsStamped {
    std_msgs::Header header;
    statistics_msgs::SummaryStatistics statistics;
    typedef ros::pointer<SummaryStatisticsStamped> Ptr;
    typedef ros::pointer<const SummaryStatisticsStamped> ConstPtr;
};
typedef ros::pointer<SummaryStatisticsStamped> SummaryStatisticsStampedPtr;
typedef ros::pointer<const SummaryStatisticsStamped> SummaryStatisticsStampedConstPtr;
}
