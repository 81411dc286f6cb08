// Stand-in for the header generated from the message definition serpent/StereoTrackerStatistics.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <ros/pointer.h>
#include <ros/time.h>
#include <std_msgs/Header.h>
namespace serpent {
struct StereoTrackerStatistics {
    std_msgs::Header header;
    int32_t frame_number = 0;
    int32_t max_match_id = 0;
    int32_t longest_tracked_match_id = 0;
    boost::array<int32_t, 2> tracked_kp_count;
    int32_t tracked_match_count = 0;
    boost::array<int32_t, 2> extracted_kp_count;
    boost::array<int32_t, 2> filtered_extracted_kp_count;
    int32_t new_match_count = 0;
    int32_t total_match_count = 0;
    std::vector<int32_t> match_ids;
    StereoTrackerStatistics() { tracked_kp_count.fill(int32_t()); extracted_kp_count.fill(int32_t()); filtered_extracted_kp_count.fill(int32_t()); }
    typedef ros::pointer<StereoTrackerStatistics> Ptr;
    typedef ros::pointer<const StereoTrackerStatistics> ConstPtr;
};
typedef ros::pointer<StereoTrackerStatistics> StereoTrackerStatisticsPtr;
typedef ros::pointer<const StereoTrackerStatistics> StereoTrackerStatisticsConstPtr;
}
