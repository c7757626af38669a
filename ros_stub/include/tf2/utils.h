#pragma once
#include <chrono>
#include <cmath>
#include <stdexcept>
#include <string>
#include <simros/msgs.hpp>
namespace tf2
{
using Duration = std::chrono::nanoseconds;
using TimePoint = std::chrono::time_point<std::chrono::system_clock, Duration>;
static const TimePoint TimePointZero = TimePoint(std::chrono::nanoseconds(0));
inline Duration durationFromSec(double s)
{
  return std::chrono::nanoseconds(static_cast<int64_t>(s * 1e9));
}
class TransformException : public std::runtime_error
{
public:
  explicit TransformException(const std::string & s) : std::runtime_error(s) {}
};
class LookupException : public TransformException {using TransformException::TransformException;};
class ExtrapolationException : public TransformException {using TransformException::TransformException;};
class ConnectivityException : public TransformException {public: using TransformException::TransformException;};
class InvalidArgumentException : public TransformException {public: using TransformException::TransformException;};
class TimeoutException : public TransformException {public: using TransformException::TransformException;};
class Quaternion
{
public:
  Quaternion() = default;
  Quaternion(double x, double y, double z, double w) : q_{x, y, z, w} {}
  void setRPY(double r, double p, double y)
  {
    double cr = std::cos(r / 2), sr = std::sin(r / 2), cp = std::cos(p / 2), sp = std::sin(p / 2),
      cy = std::cos(y / 2), sy = std::sin(y / 2);
    q_[0] = sr * cp * cy - cr * sp * sy; q_[1] = cr * sp * cy + sr * cp * sy;
    q_[2] = cr * cp * sy - sr * sp * cy; q_[3] = cr * cp * cy + sr * sp * sy;
  }
  double x() const {return q_[0];}
  double y() const {return q_[1];}
  double z() const {return q_[2];}
  double w() const {return q_[3];}
  double getX() const {return q_[0];}
  double getY() const {return q_[1];}
  double getZ() const {return q_[2];}
  double getW() const {return q_[3];}
private:
  double q_[4] = {0, 0, 0, 1};
};
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & q)
{
  geometry_msgs::msg::Quaternion m;
  m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w();
  return m;
}
inline void fromMsg(const geometry_msgs::msg::Quaternion & m, Quaternion & q) {q = Quaternion(m.x, m.y, m.z, m.w);}
inline double getYaw(const Quaternion & q)
{
  return std::atan2(2.0 * (q.w() * q.z() + q.x() * q.y()), 1.0 - 2.0 * (q.y() * q.y() + q.z() * q.z()));
}
inline double timeToSec(const TimePoint & t) {return t.time_since_epoch().count() * 1e-9;}
inline double durationToSec(const Duration & d) {return d.count() * 1e-9;}
inline double getYaw(const geometry_msgs::msg::Quaternion & q)
{
  return std::atan2(2.0 * (q.w * q.z + q.x * q.y), 1.0 - 2.0 * (q.y * q.y + q.z * q.z));
}
}
