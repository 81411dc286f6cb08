// PCL 1.14 keeps std pointers where the code under test was written for boost's: clouds made with boost::make_shared become PCL's pointers.
#pragma once
#include <boost/make_shared.hpp>
#include <memory>
namespace pcl { struct PCLPointCloud2; }
namespace ros { template<typename T> struct bridge { boost::shared_ptr<T> p; bridge(const boost::shared_ptr<T>& q) : p(q) {} operator std::shared_ptr<T>() const { boost::shared_ptr<T> q = p; return std::shared_ptr<T>(p.get(), [q](T*) {}); } }; }
namespace boost { namespace detail { template<> struct sp_if_not_array<pcl::PCLPointCloud2> { typedef ros::bridge<pcl::PCLPointCloud2> type; }; } }
