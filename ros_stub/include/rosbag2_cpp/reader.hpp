#pragma once
#include <algorithm>
#include <stdexcept>
#include <rosbag2_storage/serialized_bag_message.hpp>
namespace rosbag2_cpp
{
class Reader
{
public:
  void open(const std::string & f)
  {
    auto & d = simros::disk().files;
    auto it = d.find(f);
    if (it == d.end()) {throw std::runtime_error("no such bag: " + f);}
    m_ = it->second;
    std::stable_sort(m_.begin(), m_.end(), [](auto & a, auto & b) {return a.stamp < b.stamp;});
    i_ = 0;
  }
  bool has_next() {return i_ < m_.size();}
  rosbag2_storage::SerializedBagMessageSharedPtr read_next()
  {
    auto r = std::make_shared<rosbag2_storage::SerializedBagMessage>();
    r->serialized_data = std::make_shared<rcutils_uint8_array_t>();
    r->serialized_data->buf = m_.at(i_).data;
    r->time_stamp = m_[i_].stamp;
    r->topic_name = m_[i_].topic;
    ++i_;
    return r;
  }
  void close() {}
private:
  std::vector<simros::BagRecord> m_;
  size_t i_ = 0;
};
}
