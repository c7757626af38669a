#pragma once
// like the real header, this one brings a good part of the standard library with it
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdio>
#include <functional>
#include <future>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <utility>
#include <vector>
#include <simros/core.hpp>
#include <simros/msgs.hpp>

#define RCLCPP_SHARED_PTR_DEFINITIONS(...) \
  using SharedPtr = std::shared_ptr<__VA_ARGS__>; \
  using ConstSharedPtr = std::shared_ptr<const __VA_ARGS__>; \
  using WeakPtr = std::weak_ptr<__VA_ARGS__>;

namespace rclcpp
{
inline bool ok() {return simros::world().ok();}
inline void shutdown() {}

class Duration
{
public:
  Duration() = default;
  Duration(int32_t s, uint32_t ns) : ns_(int64_t(s) * 1000000000LL + ns) {}
  template<class R, class P> Duration(const std::chrono::duration<R, P> & d)  // NOLINT
  : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  static Duration from_seconds(double s) {Duration d; d.ns_ = static_cast<int64_t>(s * 1e9); return d;}
  static Duration from_nanoseconds(int64_t n) {Duration d; d.ns_ = n; return d;}
  double seconds() const {return ns_ * 1e-9;}
  int64_t nanoseconds() const {return ns_;}
  Duration operator+(const Duration & o) const {return from_nanoseconds(ns_ + o.ns_);}
  Duration operator-(const Duration & o) const {return from_nanoseconds(ns_ - o.ns_);}
  Duration operator*(double k) const {return from_nanoseconds(static_cast<int64_t>(ns_ * k));}
  bool operator<(const Duration & o) const {return ns_ < o.ns_;}
  bool operator>(const Duration & o) const {return ns_ > o.ns_;}
  bool operator<=(const Duration & o) const {return ns_ <= o.ns_;}
  bool operator>=(const Duration & o) const {return ns_ >= o.ns_;}
  bool operator==(const Duration & o) const {return ns_ == o.ns_;}
  bool operator!=(const Duration & o) const {return ns_ != o.ns_;}
  Duration operator-() const {return from_nanoseconds(-ns_);}
  Duration & operator+=(const Duration & o) {ns_ += o.ns_; return *this;}
  Duration & operator-=(const Duration & o) {ns_ -= o.ns_; return *this;}
  template<class D> D to_chrono() const {return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_));}
  static Duration max() {return from_nanoseconds(std::numeric_limits<int64_t>::max());}
private:
  int64_t ns_ = 0;
};
class Time
{
public:
  Time() = default;
  Time(int32_t s, uint32_t ns) : ns_(int64_t(s) * 1000000000LL + ns) {}
  explicit Time(int64_t ns, int = 1) : ns_(ns) {}
  Time(const builtin_interfaces::msg::Time & t)  // NOLINT
  : ns_(int64_t(t.sec) * 1000000000LL + t.nanosec) {}
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time t;
    int64_t s = ns_ / 1000000000LL, n = ns_ % 1000000000LL;
    if (n < 0) {n += 1000000000LL; --s;}
    t.sec = static_cast<int32_t>(s); t.nanosec = static_cast<uint32_t>(n);
    return t;
  }
  int64_t nanoseconds() const {return ns_;}
  double seconds() const {return ns_ * 1e-9;}
  Time operator+(const Duration & d) const {return Time(ns_ + d.nanoseconds());}
  Time operator-(const Duration & d) const {return Time(ns_ - d.nanoseconds());}
  Duration operator-(const Time & t) const {return Duration::from_nanoseconds(ns_ - t.ns_);}
  bool operator<(const Time & o) const {return ns_ < o.ns_;}
  bool operator>(const Time & o) const {return ns_ > o.ns_;}
  bool operator<=(const Time & o) const {return ns_ <= o.ns_;}
  bool operator>=(const Time & o) const {return ns_ >= o.ns_;}
  bool operator==(const Time & o) const {return ns_ == o.ns_;}
  bool operator!=(const Time & o) const {return ns_ != o.ns_;}
  Time & operator+=(const Duration & d) {ns_ += d.nanoseconds(); return *this;}
  Time & operator-=(const Duration & d) {ns_ -= d.nanoseconds(); return *this;}
private:
  int64_t ns_ = 0;
};
inline Time operator+(const Duration & d, const Time & t) {return t + d;}

// waiting goes through the functions of the standard library, where the harness gets to see it
inline bool sleep_for(const Duration & d) {std::this_thread::sleep_for(std::chrono::nanoseconds(d.nanoseconds())); return ok();}
template<class R, class P> bool sleep_for(const std::chrono::duration<R, P> & d)
{
  std::this_thread::sleep_for(d); return ok();
}
class Rate
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Rate)
  explicit Rate(double hz) : ns_(static_cast<int64_t>(1e9 / hz)) {}
  explicit Rate(const Duration & d) : ns_(d.nanoseconds()) {}
  template<class R, class P> explicit Rate(const std::chrono::duration<R, P> & d) : Rate(Duration(d)) {}
  bool sleep() {std::this_thread::sleep_for(std::chrono::nanoseconds(ns_)); return true;}
  void reset() {}
private:
  int64_t ns_;
};
using WallRate = Rate;

class Logger
{
public:
  Logger get_child(const std::string &) {return *this;}
  const char * get_name() const {return "sim";}
};
inline Logger get_logger(const std::string &) {return Logger();}

class Clock
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Clock)
  Time now() {return Time(simros::world().now_ns());}
  bool sleep_for(const Duration & d) {return rclcpp::sleep_for(d);}
};

struct KeepLast {explicit KeepLast(size_t n) : depth(n) {} size_t depth;};
struct KeepAll {};
enum class DurabilityPolicy {SystemDefault, TransientLocal, Volatile, Unknown};
enum class ReliabilityPolicy {BestEffort, Reliable, SystemDefault, Unknown};
enum class HistoryPolicy {KeepLast, KeepAll, SystemDefault, Unknown};
class QoS
{
public:
  QoS(size_t) {}  // NOLINT
  explicit QoS(KeepLast) {}
  explicit QoS(KeepAll) {}
  explicit QoS(size_t, int) {}
  QoS & durability(int d) {latched_ = d == 1; return *this;}
  QoS & durability(DurabilityPolicy d) {latched_ = d == DurabilityPolicy::TransientLocal; return *this;}
  QoS & reliability(ReliabilityPolicy) {return *this;}
  QoS & history(HistoryPolicy) {return *this;}
  QoS & keep_all() {return *this;}
  QoS & transient_local() {latched_ = true; return *this;}
  QoS & reliable() {return *this;}
  QoS & best_effort() {return *this;}
  QoS & durability_volatile() {latched_ = false; return *this;}
  QoS & keep_last(size_t) {return *this;}
  bool simros_latched() const {return latched_;}
private:
  bool latched_ = false;
};
struct SystemDefaultsQoS : QoS {SystemDefaultsQoS() : QoS(10) {}};
struct SensorDataQoS : QoS {SensorDataQoS() : QoS(5) {}};

template<class M> class Publisher
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Publisher<M>)
  explicit Publisher(std::string t) : topic(std::move(t)) {}
  void publish(const M & m)
  {
    if (simros::world().on_publish) {simros::world().on_publish(topic, std::any(m));}
  }
  void publish(std::unique_ptr<M> m) {publish(*m);}
  size_t get_subscription_count() const {return 1;}
  std::string topic;
};
template<class M> class Subscription
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Subscription<M>)
};
template<class S> class Service
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Service<S>)
};
class CallbackGroup {public: RCLCPP_SHARED_PTR_DEFINITIONS(CallbackGroup)};
class TimerBase {public: RCLCPP_SHARED_PTR_DEFINITIONS(TimerBase)};

class NodeOptions
{
public:
  NodeOptions() = default;
};

class Parameter
{
public:
  Parameter(const std::string & n, const std::any & v) : n_(n), v_(v) {}
  template<class T> static T convert(const std::any & a)
  {
    if (a.type() == typeid(T)) {return std::any_cast<T>(a);}
    if constexpr (std::is_arithmetic<T>::value) {
      if (a.type() == typeid(double)) {return static_cast<T>(std::any_cast<double>(a));}
      if (a.type() == typeid(int)) {return static_cast<T>(std::any_cast<int>(a));}
      if (a.type() == typeid(bool)) {return static_cast<T>(std::any_cast<bool>(a));}
      if (a.type() == typeid(int64_t)) {return static_cast<T>(std::any_cast<int64_t>(a));}
    }
    throw std::runtime_error("parameter type");
  }
  template<class T> T get_value() const {return convert<T>(v_);}
  double as_double() const {return convert<double>(v_);}
  int64_t as_int() const {return convert<int64_t>(v_);}
  bool as_bool() const {return convert<bool>(v_);}
  std::string as_string() const {return convert<std::string>(v_);}
  const std::string & get_name() const {return n_;}
private:
  std::string n_;
  std::any v_;
};

class Node : public std::enable_shared_from_this<Node>
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Node)
  explicit Node(const std::string & name, const NodeOptions & = NodeOptions()) : name_(name) {}
  virtual ~Node() = default;
  template<class T> T declare_parameter(const std::string & n, const T & def)
  {
    if (declared_.count(n)) {throw std::runtime_error("parameter already declared: " + n);}
    auto & p = simros::world().params;
    auto it = p.find(n);
    T v = (it == p.end()) ? def : convert<T>(it->second);
    declared_[n] = v;
    return v;
  }
  template<class T> T declare_parameter(const std::string & n) {return declare_parameter<T>(n, T());}
  Parameter get_parameter(const std::string & n) const
  {
    auto it = declared_.find(n);
    if (it == declared_.end()) {throw std::runtime_error("parameter not declared: " + n);}
    return Parameter(n, it->second);
  }
  template<class T> bool get_parameter_or(const std::string & n, T & v, const T & def) const
  {
    if (get_parameter(n, v)) {return true;}
    v = def;
    return false;
  }
  bool has_parameter(const std::string & n) const {return declared_.count(n) > 0;}
  template<class T> bool get_parameter(const std::string & n, T & v) const
  {
    auto it = declared_.find(n);
    if (it == declared_.end()) {return false;}
    v = convert<T>(it->second);
    return true;
  }
  template<class M> typename Publisher<M>::SharedPtr create_publisher(const std::string & t, const QoS & q)
  {
    if (simros::world().on_advertise) {simros::world().on_advertise(t, q.simros_latched());}
    return std::make_shared<Publisher<M>>(t);
  }
  template<class M, class C> typename Subscription<M>::SharedPtr create_subscription(
    const std::string & t, const QoS &, C && cb)
  {
    std::function<void(typename M::ConstSharedPtr)> f = cb;
    simros::world().subscriptions[t] = f;
    return std::make_shared<Subscription<M>>();
  }
  template<class S, class C> typename Service<S>::SharedPtr create_service(const std::string & t, C && cb)
  {
    std::function<void(std::shared_ptr<typename S::Request>, std::shared_ptr<typename S::Response>)> f = cb;
    simros::world().services[t] = f;
    return std::make_shared<Service<S>>();
  }
  Clock::SharedPtr get_clock() {return std::make_shared<Clock>();}
  Time now() const {return Time(simros::world().now_ns());}
  Logger get_logger() const {return Logger();}
  const char * get_name() const {return name_.c_str();}

private:
  template<class T> static T convert(const std::any & a) {return Parameter::convert<T>(a);}
  std::string name_;
  std::map<std::string, std::any> declared_;
};
inline void spin(Node::SharedPtr) {}
}  // namespace rclcpp

namespace simros
{
__attribute__((format(printf, 1, 2))) inline void log_discard(const char *, ...) {}
}
#define SIMROS_LOG(logger, ...) do {(void)(logger); ::simros::log_discard(__VA_ARGS__);} while (0)
#define SIMROS_LOGS(logger, x) do {(void)(logger); std::ostringstream simros_s; simros_s << x;} while (0)
#define RCLCPP_DEBUG(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_DEBUG_ONCE(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_DEBUG_SKIPFIRST(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_DEBUG_EXPRESSION(logger, expression, ...) do {if (expression) {SIMROS_LOG(logger, __VA_ARGS__);}} while (0)
#define RCLCPP_DEBUG_FUNCTION(logger, function, ...) do {if ((*function)()) {SIMROS_LOG(logger, __VA_ARGS__);}} while (0)
#define RCLCPP_DEBUG_THROTTLE(logger, clock, dur, ...) do {(void)(clock); (void)(dur); SIMROS_LOG(logger, __VA_ARGS__);} while (0)
#define RCLCPP_DEBUG_SKIPFIRST_THROTTLE(logger, clock, dur, ...) do {(void)(clock); (void)(dur); SIMROS_LOG(logger, __VA_ARGS__);} while (0)
#define RCLCPP_DEBUG_STREAM(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_DEBUG_STREAM_ONCE(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_DEBUG_STREAM_SKIPFIRST(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_DEBUG_STREAM_EXPRESSION(logger, expression, x) do {if (expression) {SIMROS_LOGS(logger, x);}} while (0)
#define RCLCPP_DEBUG_STREAM_THROTTLE(logger, clock, dur, x) do {(void)(clock); (void)(dur); SIMROS_LOGS(logger, x);} while (0)
#define RCLCPP_INFO(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_INFO_SKIPFIRST(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_INFO_EXPRESSION(logger, expression, ...) do {if (expression) {SIMROS_LOG(logger, __VA_ARGS__);}} while (0)
#define RCLCPP_INFO_FUNCTION(logger, function, ...) do {if ((*function)()) {SIMROS_LOG(logger, __VA_ARGS__);}} while (0)
#define RCLCPP_INFO_THROTTLE(logger, clock, dur, ...) do {(void)(clock); (void)(dur); SIMROS_LOG(logger, __VA_ARGS__);} while (0)
#define RCLCPP_INFO_SKIPFIRST_THROTTLE(logger, clock, dur, ...) do {(void)(clock); (void)(dur); SIMROS_LOG(logger, __VA_ARGS__);} while (0)
#define RCLCPP_INFO_STREAM(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_INFO_STREAM_ONCE(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_INFO_STREAM_SKIPFIRST(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_INFO_STREAM_EXPRESSION(logger, expression, x) do {if (expression) {SIMROS_LOGS(logger, x);}} while (0)
#define RCLCPP_INFO_STREAM_THROTTLE(logger, clock, dur, x) do {(void)(clock); (void)(dur); SIMROS_LOGS(logger, x);} while (0)
#define RCLCPP_WARN(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_WARN_SKIPFIRST(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_WARN_EXPRESSION(logger, expression, ...) do {if (expression) {SIMROS_LOG(logger, __VA_ARGS__);}} while (0)
#define RCLCPP_WARN_FUNCTION(logger, function, ...) do {if ((*function)()) {SIMROS_LOG(logger, __VA_ARGS__);}} while (0)
#define RCLCPP_WARN_THROTTLE(logger, clock, dur, ...) do {(void)(clock); (void)(dur); SIMROS_LOG(logger, __VA_ARGS__);} while (0)
#define RCLCPP_WARN_SKIPFIRST_THROTTLE(logger, clock, dur, ...) do {(void)(clock); (void)(dur); SIMROS_LOG(logger, __VA_ARGS__);} while (0)
#define RCLCPP_WARN_STREAM(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_WARN_STREAM_ONCE(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_WARN_STREAM_SKIPFIRST(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_WARN_STREAM_EXPRESSION(logger, expression, x) do {if (expression) {SIMROS_LOGS(logger, x);}} while (0)
#define RCLCPP_WARN_STREAM_THROTTLE(logger, clock, dur, x) do {(void)(clock); (void)(dur); SIMROS_LOGS(logger, x);} while (0)
#define RCLCPP_ERROR(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_ERROR_SKIPFIRST(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_ERROR_EXPRESSION(logger, expression, ...) do {if (expression) {SIMROS_LOG(logger, __VA_ARGS__);}} while (0)
#define RCLCPP_ERROR_FUNCTION(logger, function, ...) do {if ((*function)()) {SIMROS_LOG(logger, __VA_ARGS__);}} while (0)
#define RCLCPP_ERROR_THROTTLE(logger, clock, dur, ...) do {(void)(clock); (void)(dur); SIMROS_LOG(logger, __VA_ARGS__);} while (0)
#define RCLCPP_ERROR_SKIPFIRST_THROTTLE(logger, clock, dur, ...) do {(void)(clock); (void)(dur); SIMROS_LOG(logger, __VA_ARGS__);} while (0)
#define RCLCPP_ERROR_STREAM(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_ERROR_STREAM_ONCE(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_ERROR_STREAM_SKIPFIRST(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_ERROR_STREAM_EXPRESSION(logger, expression, x) do {if (expression) {SIMROS_LOGS(logger, x);}} while (0)
#define RCLCPP_ERROR_STREAM_THROTTLE(logger, clock, dur, x) do {(void)(clock); (void)(dur); SIMROS_LOGS(logger, x);} while (0)
#define RCLCPP_FATAL(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_FATAL_ONCE(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_FATAL_SKIPFIRST(logger, ...) SIMROS_LOG(logger, __VA_ARGS__)
#define RCLCPP_FATAL_EXPRESSION(logger, expression, ...) do {if (expression) {SIMROS_LOG(logger, __VA_ARGS__);}} while (0)
#define RCLCPP_FATAL_FUNCTION(logger, function, ...) do {if ((*function)()) {SIMROS_LOG(logger, __VA_ARGS__);}} while (0)
#define RCLCPP_FATAL_THROTTLE(logger, clock, dur, ...) do {(void)(clock); (void)(dur); SIMROS_LOG(logger, __VA_ARGS__);} while (0)
#define RCLCPP_FATAL_SKIPFIRST_THROTTLE(logger, clock, dur, ...) do {(void)(clock); (void)(dur); SIMROS_LOG(logger, __VA_ARGS__);} while (0)
#define RCLCPP_FATAL_STREAM(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_FATAL_STREAM_ONCE(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_FATAL_STREAM_SKIPFIRST(logger, x) SIMROS_LOGS(logger, x)
#define RCLCPP_FATAL_STREAM_EXPRESSION(logger, expression, x) do {if (expression) {SIMROS_LOGS(logger, x);}} while (0)
#define RCLCPP_FATAL_STREAM_THROTTLE(logger, clock, dur, x) do {(void)(clock); (void)(dur); SIMROS_LOGS(logger, x);} while (0)
