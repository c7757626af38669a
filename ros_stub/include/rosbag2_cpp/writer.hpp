#pragma once
#include <stdexcept>
#include <rosbag2_storage/serialized_bag_message.hpp>
namespace rosbag2_cpp
{
class Writer
{
public:
  void open(const std::string & f)
  {
    auto & d = simros::disk();
    if (d.fail_open_write || d.files.count(f)) {throw std::runtime_error("bag exists: " + f);}
    d.files[f];
    f_ = f;
  }
  void write(std::shared_ptr<rclcpp::SerializedMessage> m, const std::string & topic,
    const std::string & type, const rclcpp::Time & t)
  {
    simros::disk().files.at(f_).push_back(
      {topic, type, t.nanoseconds(), m->get_rcl_serialized_message().buf});
  }
  template<class M> void write(const M & m, const std::string & topic, const rclcpp::Time & t)
  {
    auto s = std::make_shared<rclcpp::SerializedMessage>();
    rclcpp::Serialization<M>().serialize_message(&m, s.get());
    write(s, topic, "", t);
  }
  void close() {}
private:
  std::string f_;
};
}
