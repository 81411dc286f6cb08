// Stand-in for ros/ros.h: ROS 1 is not available here; the code under test only logs through it.
#pragma once
#include <memory>
#include <string>
#define ROS_DEBUG(...) do { } while (0)
#define ROS_DEBUG_NAMED(...) do { } while (0)
#define ROS_DEBUG_ONCE(...) do { } while (0)
#define ROS_DEBUG_COND(...) do { } while (0)
#define ROS_DEBUG_THROTTLE(...) do { } while (0)
#define ROS_DEBUG_ONCE_NAMED(...) do { } while (0)
#define ROS_DEBUG_COND_NAMED(...) do { } while (0)
#define ROS_DEBUG_THROTTLE_NAMED(...) do { } while (0)
#define ROS_DEBUG_STREAM(...) do { } while (0)
#define ROS_DEBUG_STREAM_NAMED(...) do { } while (0)
#define ROS_DEBUG_STREAM_ONCE(...) do { } while (0)
#define ROS_DEBUG_STREAM_COND(...) do { } while (0)
#define ROS_DEBUG_STREAM_THROTTLE(...) do { } while (0)
#define ROS_DEBUG_STREAM_ONCE_NAMED(...) do { } while (0)
#define ROS_DEBUG_STREAM_COND_NAMED(...) do { } while (0)
#define ROS_DEBUG_STREAM_THROTTLE_NAMED(...) do { } while (0)
#define ROS_INFO(...) do { } while (0)
#define ROS_INFO_NAMED(...) do { } while (0)
#define ROS_INFO_ONCE(...) do { } while (0)
#define ROS_INFO_COND(...) do { } while (0)
#define ROS_INFO_THROTTLE(...) do { } while (0)
#define ROS_INFO_ONCE_NAMED(...) do { } while (0)
#define ROS_INFO_COND_NAMED(...) do { } while (0)
#define ROS_INFO_THROTTLE_NAMED(...) do { } while (0)
#define ROS_INFO_STREAM(...) do { } while (0)
#define ROS_INFO_STREAM_NAMED(...) do { } while (0)
#define ROS_INFO_STREAM_ONCE(...) do { } while (0)
#define ROS_INFO_STREAM_COND(...) do { } while (0)
#define ROS_INFO_STREAM_THROTTLE(...) do { } while (0)
#define ROS_INFO_STREAM_ONCE_NAMED(...) do { } while (0)
#define ROS_INFO_STREAM_COND_NAMED(...) do { } while (0)
#define ROS_INFO_STREAM_THROTTLE_NAMED(...) do { } while (0)
#define ROS_WARN(...) do { } while (0)
#define ROS_WARN_NAMED(...) do { } while (0)
#define ROS_WARN_ONCE(...) do { } while (0)
#define ROS_WARN_COND(...) do { } while (0)
#define ROS_WARN_THROTTLE(...) do { } while (0)
#define ROS_WARN_ONCE_NAMED(...) do { } while (0)
#define ROS_WARN_COND_NAMED(...) do { } while (0)
#define ROS_WARN_THROTTLE_NAMED(...) do { } while (0)
#define ROS_WARN_STREAM(...) do { } while (0)
#define ROS_WARN_STREAM_NAMED(...) do { } while (0)
#define ROS_WARN_STREAM_ONCE(...) do { } while (0)
#define ROS_WARN_STREAM_COND(...) do { } while (0)
#define ROS_WARN_STREAM_THROTTLE(...) do { } while (0)
#define ROS_WARN_STREAM_ONCE_NAMED(...) do { } while (0)
#define ROS_WARN_STREAM_COND_NAMED(...) do { } while (0)
#define ROS_WARN_STREAM_THROTTLE_NAMED(...) do { } while (0)
#define ROS_ERROR(...) do { } while (0)
#define ROS_ERROR_NAMED(...) do { } while (0)
#define ROS_ERROR_ONCE(...) do { } while (0)
#define ROS_ERROR_COND(...) do { } while (0)
#define ROS_ERROR_THROTTLE(...) do { } while (0)
#define ROS_ERROR_ONCE_NAMED(...) do { } while (0)
#define ROS_ERROR_COND_NAMED(...) do { } while (0)
#define ROS_ERROR_THROTTLE_NAMED(...) do { } while (0)
#define ROS_ERROR_STREAM(...) do { } while (0)
#define ROS_ERROR_STREAM_NAMED(...) do { } while (0)
#define ROS_ERROR_STREAM_ONCE(...) do { } while (0)
#define ROS_ERROR_STREAM_COND(...) do { } while (0)
#define ROS_ERROR_STREAM_THROTTLE(...) do { } while (0)
#define ROS_ERROR_STREAM_ONCE_NAMED(...) do { } while (0)
#define ROS_ERROR_STREAM_COND_NAMED(...) do { } while (0)
#define ROS_ERROR_STREAM_THROTTLE_NAMED(...) do { } while (0)
#define ROS_FATAL(...) do { } while (0)
#define ROS_FATAL_NAMED(...) do { } while (0)
#define ROS_FATAL_ONCE(...) do { } while (0)
#define ROS_FATAL_COND(...) do { } while (0)
#define ROS_FATAL_THROTTLE(...) do { } while (0)
#define ROS_FATAL_ONCE_NAMED(...) do { } while (0)
#define ROS_FATAL_COND_NAMED(...) do { } while (0)
#define ROS_FATAL_THROTTLE_NAMED(...) do { } while (0)
#define ROS_FATAL_STREAM(...) do { } while (0)
#define ROS_FATAL_STREAM_NAMED(...) do { } while (0)
#define ROS_FATAL_STREAM_ONCE(...) do { } while (0)
#define ROS_FATAL_STREAM_COND(...) do { } while (0)
#define ROS_FATAL_STREAM_THROTTLE(...) do { } while (0)
#define ROS_FATAL_STREAM_ONCE_NAMED(...) do { } while (0)
#define ROS_FATAL_STREAM_COND_NAMED(...) do { } while (0)
#define ROS_FATAL_STREAM_THROTTLE_NAMED(...) do { } while (0)
#include <ros/pointer.h>
#include <ros/time.h>
#include <boost/array.hpp>
#include <XmlRpcValue.h>
#include <functional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
// The rest of a ROS graph, seen from one node: parameters are what the harness has set; published messages are kept in
// order; subscriptions are called when the harness sends a message to their topic.
namespace ros {
namespace world {
template<typename T> struct Params { static std::vector<std::pair<std::string, T>>& all() { static std::vector<std::pair<std::string, T>> v; return v; } };
template<typename T> inline void set(const std::string& n, const T& v) { Params<T>::all().emplace_back(n, v); }
inline void set(const std::string& n, const char* v) { Params<std::string>::all().emplace_back(n, v); }
template<typename M> struct Bus {
    struct Out { std::string topic; pointer<const M> msg; };
    struct In { std::string topic; std::function<void(const pointer<const M>&)> call; };
    static std::vector<Out>& out() { static std::vector<Out> v; return v; }
    static std::vector<In>& in() { static std::vector<In> v; return v; }
};
// messages of this type published so far
template<typename M> inline std::size_t count() { return Bus<M>::out().size(); }
template<typename M> inline const M& published(std::size_t i) { return *Bus<M>::out()[i].msg; }
template<typename M> inline const std::string& topic(std::size_t i) { return Bus<M>::out()[i].topic; }
// number of subscriptions that got the message
template<typename M> inline int send(const std::string& topic, const M& m) {
    int n = 0; pointer<const M> p(new M(m)); auto in = Bus<M>::in();
    for (auto& s : in) if (s.topic == topic) { s.call(p); ++n; }
    return n;
}
template<typename M> inline int subscribed(const std::string& topic) { int n = 0; for (auto& s : Bus<M>::in()) n += s.topic == topic; return n; }
}
class Publisher {
    std::string topic_;
public:
    Publisher() {}
    explicit Publisher(const std::string& t) : topic_(t) {}
    std::string getTopic() const { return topic_; }
    int getNumSubscribers() const { return 1; }
    template<typename M> void publish(const M& m) const { world::Bus<M>::out().push_back({topic_, pointer<const M>(new M(m))}); }
#ifndef SV_STD_POINTERS
    template<typename M> void publish(const std::shared_ptr<M>& m) const { publish(*m); }  // (PCL's own pointers)
#endif
    template<typename M> void publish(const pointer<M>& m) const { typedef std::remove_const_t<M> N; world::Bus<N>::out().push_back({topic_, m}); }
};
class Subscriber { std::string topic_; public: Subscriber() {} explicit Subscriber(const std::string& t) : topic_(t) {} std::string getTopic() const { return topic_; } void shutdown() {} };
class ServiceServer {};
namespace world { template<typename A, typename B> struct Services { static std::vector<std::pair<std::string, std::function<bool(A&, B&)>>>& all() { static std::vector<std::pair<std::string, std::function<bool(A&, B&)>>> v; return v; } };
// number of servers that answered
template<typename A, typename B> inline int call(const std::string& n, A& a, B& b) { int k = 0; for (auto& s : Services<A, B>::all()) if (s.first == n) k += s.second(a, b); return k; } }
class TransportHints { public: TransportHints& tcpNoDelay(bool = true) { return *this; } };
class NodeHandle {
public:
    explicit NodeHandle(const std::string& = std::string()) {}
    template<typename P, typename T> static bool find(const std::string& n, T& v) { for (auto& p : world::Params<P>::all()) if (p.first == n) { v = static_cast<T>(p.second); return true; } return false; }
    // (as roscpp, numbers are given as any real type)
    template<typename T> bool getParam(const std::string& n, T& v) const { if constexpr (std::is_floating_point_v<T>) return find<double>(n, v) || find<float>(n, v) || find<int>(n, v); else return find<T>(n, v); }
    template<typename T> T param(const std::string& n, const T& d) const { T v; return getParam(n, v) ? v : d; }
    template<typename T> bool param(const std::string& n, T& v, const T& d) const { if (getParam(n, v)) return true; v = d; return false; }
    template<typename M> Publisher advertise(const std::string& t, int, bool = false) { return Publisher(t); }
    template<typename M, typename F> Subscriber listen(const std::string& t, F f) { world::Bus<M>::in().push_back({t, f}); return Subscriber(t); }
    template<typename M, typename C> Subscriber subscribe(const std::string& t, int, void (C::*f)(const pointer<const M>&), C* o, const TransportHints& = TransportHints()) { return listen<M>(t, [f, o](const pointer<const M>& m) { (o->*f)(m); }); }
    template<typename M, typename C> Subscriber subscribe(const std::string& t, int, void (C::*f)(pointer<const M>), C* o, const TransportHints& = TransportHints()) { return listen<M>(t, [f, o](const pointer<const M>& m) { (o->*f)(m); }); }
    template<typename M, typename C> Subscriber subscribe(const std::string& t, int, void (C::*f)(const M&), C* o, const TransportHints& = TransportHints()) { return listen<M>(t, [f, o](const pointer<const M>& m) { (o->*f)(*m); }); }
#ifndef SV_STD_POINTERS
    template<typename M, typename C> Subscriber subscribe(const std::string& t, int, void (C::*f)(const std::shared_ptr<const M>&), C* o, const TransportHints& = TransportHints()) { return listen<M>(t, [f, o](const pointer<const M>& m) { (o->*f)(std::make_shared<const M>(*m)); }); }
#endif
    template<typename M> Subscriber subscribe(const std::string& t, int, const std::function<void(const pointer<const M>&)>& f) { return listen<M>(t, f); }
    template<typename C, typename A, typename B> ServiceServer advertiseService(const std::string& n, bool (C::*f)(A&, B&), C* o) { world::Services<A, B>::all().emplace_back(n, [f, o](A& a, B& b) { return (o->*f)(a, b); }); return ServiceServer(); }
};
namespace world { inline bool& running() { static bool b = true; return b; } }
inline bool ok() { return world::running(); }
inline void shutdown() { world::running() = false; }
}
