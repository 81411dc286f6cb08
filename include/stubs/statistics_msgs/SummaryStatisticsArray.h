// Stand-in for the header generated from the message definition statistics_msgs/SummaryStatisticsArray.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <statistics_msgs/SummaryStatistics.h>
#include <std_msgs/Header.h>
namespace statistics_msgs {
struct SummaryStatisticsArray {
    std_msgs::Header header;
    std::vector<statistics_msgs::SummaryStatistics> statistics;
    typedef ros::pointer<SummaryStatisticsArray> Ptr;
    typedef ros::pointer<const SummaryStatisticsArray> ConstPtr;
};
typedef ros::pointer<SummaryStatisticsArray> SummaryStatisticsArrayPtr;
typedef ros::pointer<const SummaryStatisticsArray> SummaryStatisticsArrayConstPtr;
}
