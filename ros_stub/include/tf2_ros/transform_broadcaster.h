#pragma once
#include <tf2_ros/buffer.h>
namespace tf2_ros
{
class TransformBroadcaster
{
public:
  template<class N> explicit TransformBroadcaster(N &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t)
  {
    if (simros::world().on_tf) {simros::world().on_tf(std::any(t));}
  }
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & ts)
  {
    for (auto & t : ts) {sendTransform(t);}
  }
};
}
