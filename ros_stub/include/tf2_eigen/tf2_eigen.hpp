#pragma once
#include <Eigen/Geometry>
#include <simros/msgs.hpp>
namespace tf2
{
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & T)
{
  geometry_msgs::msg::TransformStamped t;
  t.transform.translation.x = T.translation().x();
  t.transform.translation.y = T.translation().y();
  t.transform.translation.z = T.translation().z();
  Eigen::Quaterniond q(T.linear());
  t.transform.rotation.x = q.x(); t.transform.rotation.y = q.y();
  t.transform.rotation.z = q.z(); t.transform.rotation.w = q.w();
  return t;
}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::Transform & t)
{
  return Eigen::Isometry3d(
    Eigen::Translation3d(t.translation.x, t.translation.y, t.translation.z) *
    Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z));
}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::TransformStamped & t)
{
  return transformToEigen(t.transform);
}
inline geometry_msgs::msg::Pose toMsg(const Eigen::Isometry3d & T)
{
  auto t = eigenToTransform(T);
  geometry_msgs::msg::Pose p;
  p.position.x = t.transform.translation.x; p.position.y = t.transform.translation.y;
  p.position.z = t.transform.translation.z; p.orientation = t.transform.rotation;
  return p;
}
inline void fromMsg(const geometry_msgs::msg::Pose & p, Eigen::Isometry3d & T)
{
  T = Eigen::Isometry3d(
    Eigen::Translation3d(p.position.x, p.position.y, p.position.z) *
    Eigen::Quaterniond(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z));
}
}
