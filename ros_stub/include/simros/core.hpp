// simros: a stand-in for the part of ROS 2 that ndt_2d talks to.  Everything the
// code under test says to "ROS" arrives at one of the hooks below, so a harness can
// script the environment and observe every externally visible effect.
#pragma once
#include <any>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>

namespace simros
{
// ---- time (virtual, nanoseconds) and lifetime
struct World
{
  std::function<bool()> ok = [] {return true;};
  std::function<int64_t()> now_ns = [] {return int64_t(0);};
  // topic, message (a std::any holding the message type by value)
  std::function<void(const std::string &, const std::any &)> on_publish;
  // target, source, stamp -> x, y, z, qx, qy, qz, qw ; false: no transform
  std::function<bool(const std::string &, const std::string &, int64_t, double *)> tf;
  // target, source, stamp, patience (ns): waits as long as it makes sense before the transform is asked for
  std::function<void(const std::string &, const std::string &, int64_t, int64_t)> tf_wait;
  // topic, later subscribers get the last message
  std::function<void(const std::string &, bool)> on_advertise;
  // any value broadcast through tf2_ros::TransformBroadcaster (geometry_msgs TransformStamped)
  std::function<void(const std::any &)> on_tf;
  // a potential interleaving point reached inside the stand-in
  std::function<void(const char *)> point;
  // parameters given to the node
  std::map<std::string, std::any> params;
  // callbacks the node registered
  std::map<std::string, std::any> subscriptions;
  std::map<std::string, std::any> services;
};
World & world();

// ---- the bag "disk"
struct BagRecord
{
  std::string topic, type;
  int64_t stamp;
  std::vector<uint8_t> data;
};
struct BagDisk
{
  std::map<std::string, std::vector<BagRecord>> files;
  bool fail_open_write = false;
};
BagDisk & disk();

// ---- generic field serialization
struct Out
{
  std::vector<uint8_t> buf;
  template<class T> void pod(const T & v)
  {
    const uint8_t * p = reinterpret_cast<const uint8_t *>(&v);
    buf.insert(buf.end(), p, p + sizeof(T));
  }
};
struct In
{
  const std::vector<uint8_t> & buf;
  size_t pos = 0;
  template<class T> void pod(T & v)
  {
    if (pos + sizeof(T) > buf.size()) {throw std::runtime_error("short message");}
    std::memcpy(&v, buf.data() + pos, sizeof(T));
    pos += sizeof(T);
  }
};
template<class A, class T, class = void> struct Io
{
  static void io(A & a, T & v) {v.simros_visit([&](auto & f) {Io<A, std::decay_t<decltype(f)>>::io(a, f);});}
};
template<class A, class T> struct Io<A, T, std::enable_if_t<std::is_arithmetic<T>::value>>
{
  static void io(A & a, T & v) {a.pod(v);}
};
template<class A> struct Io<A, std::string>
{
  static void io(Out & a, std::string & v)
  {
    uint64_t n = v.size(); a.pod(n); a.buf.insert(a.buf.end(), v.begin(), v.end());
  }
  static void io(In & a, std::string & v)
  {
    uint64_t n; a.pod(n); v.assign(a.buf.begin() + a.pos, a.buf.begin() + a.pos + n); a.pos += n;
  }
};
template<class A, class E, size_t N> struct Io<A, std::array<E, N>>
{
  static void io(A & a, std::array<E, N> & v) {for (auto & e : v) {Io<A, E>::io(a, e);}}
};
template<class E> struct Io<Out, std::vector<E>>
{
  static void io(Out & a, std::vector<E> & v)
  {
    uint64_t n = v.size(); a.pod(n); for (auto & e : v) {Io<Out, E>::io(a, e);}
  }
};
template<class E> struct Io<In, std::vector<E>>
{
  static void io(In & a, std::vector<E> & v)
  {
    uint64_t n; a.pod(n); v.resize(n); for (auto & e : v) {Io<In, E>::io(a, e);}
  }
};
}  // namespace simros
