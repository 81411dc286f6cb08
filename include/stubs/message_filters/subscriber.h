// Stand-in for message_filters: messages with the same stamp are given together, once.
#pragma once
#include <ros/ros.h>
#include <boost/bind/bind.hpp>
#include <functional>
#include <string>
#include <vector>
using boost::placeholders::_1; using boost::placeholders::_2; using boost::placeholders::_3; using boost::placeholders::_4;
namespace message_filters {
template<typename M> class Subscriber {
public:
    std::function<void(const ros::pointer<const M>&)> to;
    void subscribe(ros::NodeHandle& n, const std::string& t, int) { n.listen<M>(t, [this](const ros::pointer<const M>& m) { if (to) to(m); }); }
};
template<typename... M> class TimeSynchronizer;
template<typename A, typename B> class TimeSynchronizer<A, B> {
    std::vector<ros::pointer<const A>> as; std::vector<ros::pointer<const B>> bs;
    std::function<void(const ros::pointer<const A>&, const ros::pointer<const B>&)> f;
    static ros::Time time(const ros::Time& t) { return t; }
    static ros::Time time(std::uint64_t t) { ros::Time s; s.fromNSec(t * 1000ull); return s; }  // (PCL's clouds)
    void meet() { for (std::size_t i = 0; i < as.size(); ++i) for (std::size_t j = 0; j < bs.size(); ++j) if (time(as[i]->header.stamp) == time(bs[j]->header.stamp)) { auto a = as[i]; auto b = bs[j]; as.erase(as.begin(), as.begin() + i + 1); bs.erase(bs.begin(), bs.begin() + j + 1); if (f) f(a, b); return; } }
public:
    explicit TimeSynchronizer(int) {}
    void connectInput(Subscriber<A>& a, Subscriber<B>& b) { a.to = [this](const ros::pointer<const A>& m) { as.push_back(m); meet(); }; b.to = [this](const ros::pointer<const B>& m) { bs.push_back(m); meet(); }; }
    template<typename F> void registerCallback(const F& g) { f = g; }
};
template<typename A, typename B, typename C, typename D> class TimeSynchronizer<A, B, C, D> {
    struct Set { ros::Time stamp; ros::pointer<const A> a; ros::pointer<const B> b; ros::pointer<const C> c; ros::pointer<const D> d; };
    std::vector<Set> sets; std::function<void(const ros::pointer<const A>&, const ros::pointer<const B>&, const ros::pointer<const C>&, const ros::pointer<const D>&)> f;
    template<typename P, typename M> void add(P Set::*p, const M& m) {
        std::size_t i = 0; while (i < sets.size() && sets[i].stamp != m->header.stamp) ++i; if (i == sets.size()) { sets.emplace_back(); sets[i].stamp = m->header.stamp; } sets[i].*p = m;
        if (sets[i].a && sets[i].b && sets[i].c && sets[i].d) { const Set s = sets[i]; sets.erase(sets.begin(), sets.begin() + i + 1); if (f) f(s.a, s.b, s.c, s.d); }
    }
public:
    explicit TimeSynchronizer(int) {}
    void connectInput(Subscriber<A>& a, Subscriber<B>& b, Subscriber<C>& c, Subscriber<D>& d) { a.to = [this](const ros::pointer<const A>& m) { add(&Set::a, m); }; b.to = [this](const ros::pointer<const B>& m) { add(&Set::b, m); }; c.to = [this](const ros::pointer<const C>& m) { add(&Set::c, m); }; d.to = [this](const ros::pointer<const D>& m) { add(&Set::d, m); }; }
    template<typename F> void registerCallback(const F& g) { f = g; }
};
}
