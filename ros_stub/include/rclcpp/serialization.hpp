#pragma once
#include <rclcpp/rclcpp.hpp>
struct rcutils_uint8_array_t {std::vector<uint8_t> buf;};
using rcl_serialized_message_t = rcutils_uint8_array_t;
namespace rclcpp
{
class SerializedMessage
{
public:
  explicit SerializedMessage(size_t = 0) {}
  explicit SerializedMessage(const rcl_serialized_message_t & m) : m_(m) {}
  rcl_serialized_message_t & get_rcl_serialized_message() {return m_;}
  const rcl_serialized_message_t & get_rcl_serialized_message() const {return m_;}
  size_t size() const {return m_.buf.size();}
private:
  rcl_serialized_message_t m_;
};
template<class T> class Serialization
{
public:
  void serialize_message(const void * in, SerializedMessage * out) const
  {
    simros::Out o;
    T copy = *static_cast<const T *>(in);
    simros::Io<simros::Out, T>::io(o, copy);
    out->get_rcl_serialized_message().buf = o.buf;
  }
  void deserialize_message(const SerializedMessage * in, void * out) const
  {
    simros::In i{in->get_rcl_serialized_message().buf};
    simros::Io<simros::In, T>::io(i, *static_cast<T *>(out));
  }
};
}
