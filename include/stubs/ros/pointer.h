// The shared pointer of ROS messages: boost's, or std's where PCL's own (std) pointers are mixed with them.
#pragma once
#ifdef SV_STD_POINTERS
#include <memory>
namespace ros { template<typename T> using pointer = std::shared_ptr<T>; }
#else
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
namespace ros { template<typename T> using pointer = boost::shared_ptr<T>; }
#endif
