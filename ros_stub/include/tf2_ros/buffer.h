#pragma once
#include <cmath>
#include <rclcpp/rclcpp.hpp>
#include <tf2/utils.h>
namespace tf2_ros
{
class Buffer
{
public:
  explicit Buffer(rclcpp::Clock::SharedPtr) {}
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const tf2::TimePoint & t,
    const tf2::Duration & d = tf2::Duration(0)) const
  {
    return look(target, source, t.time_since_epoch().count(), ns(d));
  }
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const rclcpp::Time & t,
    const rclcpp::Duration & d = rclcpp::Duration()) const
  {
    return look(target, source, t.nanoseconds(), d.nanoseconds());
  }
  bool canTransform(const std::string & target, const std::string & source, const tf2::TimePoint & t,
    const tf2::Duration & d = tf2::Duration(0), std::string * = nullptr) const
  {
    try {look(target, source, t.time_since_epoch().count(), ns(d)); return true;}
    catch (const tf2::TransformException &) {return false;}
  }
  bool canTransform(const std::string & target, const std::string & source, const rclcpp::Time & t,
    const rclcpp::Duration & d = rclcpp::Duration(), std::string * = nullptr) const
  {
    try {look(target, source, t.nanoseconds(), d.nanoseconds()); return true;}
    catch (const tf2::TransformException &) {return false;}
  }
  // poses are planar here: only yaw is composed
  geometry_msgs::msg::PoseStamped & transform(
    const geometry_msgs::msg::PoseStamped & in, geometry_msgs::msg::PoseStamped & out,
    const std::string & target, tf2::Duration d = tf2::Duration(0)) const
  {
    auto t = look(target, in.header.frame_id, rclcpp::Time(in.header.stamp).nanoseconds(), ns(d));
    double yaw = tf2::getYaw(t.transform.rotation), py = tf2::getYaw(in.pose.orientation);
    double x = in.pose.position.x, y = in.pose.position.y;
    geometry_msgs::msg::PoseStamped r;
    r.header.stamp = in.header.stamp;
    r.header.frame_id = target;
    r.pose.position.x = t.transform.translation.x + std::cos(yaw) * x - std::sin(yaw) * y;
    r.pose.position.y = t.transform.translation.y + std::sin(yaw) * x + std::cos(yaw) * y;
    r.pose.orientation.x = r.pose.orientation.y = 0.0;
    r.pose.orientation.z = std::sin((yaw + py) / 2);
    r.pose.orientation.w = std::cos((yaw + py) / 2);
    out = r;
    return out;
  }
  geometry_msgs::msg::PoseStamped transform(
    const geometry_msgs::msg::PoseStamped & in, const std::string & target,
    tf2::Duration d = tf2::Duration(0)) const
  {
    geometry_msgs::msg::PoseStamped out;
    return transform(in, out, target, d);
  }
private:
  static int64_t ns(const tf2::Duration & d) {return std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();}
  geometry_msgs::msg::TransformStamped look(const std::string & target, const std::string & source, int64_t t, int64_t patience) const
  {
    if (simros::world().tf_wait) {simros::world().tf_wait(target, source, t, patience);}
    double v[7] = {0, 0, 0, 0, 0, 0, 1};
    if (!simros::world().tf || !simros::world().tf(target, source, t, v)) {
      throw tf2::LookupException("no transform");
    }
    geometry_msgs::msg::TransformStamped r;
    r.header.frame_id = target;
    r.child_frame_id = source;
    r.transform.translation.x = v[0]; r.transform.translation.y = v[1]; r.transform.translation.z = v[2];
    r.transform.rotation.x = v[3]; r.transform.rotation.y = v[4];
    r.transform.rotation.z = v[5]; r.transform.rotation.w = v[6];
    return r;
  }
};
}
