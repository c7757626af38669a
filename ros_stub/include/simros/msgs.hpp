#pragma once
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <simros/core.hpp>

#define SIMROS_PTRS(T) \
  using SharedPtr = std::shared_ptr<T>; \
  using ConstSharedPtr = std::shared_ptr<const T>; \
  using UniquePtr = std::unique_ptr<T>;
#define SIMROS_NOFIELDS template<class F> void simros_visit(F &&) {}

namespace builtin_interfaces { namespace msg {
struct Time {
  SIMROS_PTRS(Time)
  int32_t sec = 0; uint32_t nanosec = 0;
  template<class F> void simros_visit(F && f) {f(sec); f(nanosec);}
};
struct Duration {
  SIMROS_PTRS(Duration)
  int32_t sec = 0; uint32_t nanosec = 0;
  template<class F> void simros_visit(F && f) {f(sec); f(nanosec);}
};
}}
namespace std_msgs { namespace msg {
struct Header {
  SIMROS_PTRS(Header)
  builtin_interfaces::msg::Time stamp; std::string frame_id;
  template<class F> void simros_visit(F && f) {f(stamp); f(frame_id);}
};
struct ColorRGBA {
  SIMROS_PTRS(ColorRGBA)
  float r = 0, g = 0, b = 0, a = 0;
  template<class F> void simros_visit(F && f) {f(r); f(g); f(b); f(a);}
};
}}
namespace geometry_msgs { namespace msg {
struct Point {
  SIMROS_PTRS(Point)
  double x = 0, y = 0, z = 0;
  template<class F> void simros_visit(F && f) {f(x); f(y); f(z);}
};
struct Vector3 {
  SIMROS_PTRS(Vector3)
  double x = 0, y = 0, z = 0;
  template<class F> void simros_visit(F && f) {f(x); f(y); f(z);}
};
struct Quaternion {
  SIMROS_PTRS(Quaternion)
  double x = 0, y = 0, z = 0, w = 1;
  template<class F> void simros_visit(F && f) {f(x); f(y); f(z); f(w);}
};
struct Pose {
  SIMROS_PTRS(Pose)
  Point position; Quaternion orientation;
  template<class F> void simros_visit(F && f) {f(position); f(orientation);}
};
struct Transform {
  SIMROS_PTRS(Transform)
  Vector3 translation; Quaternion rotation;
  template<class F> void simros_visit(F && f) {f(translation); f(rotation);}
};
struct PoseStamped {
  SIMROS_PTRS(PoseStamped)
  std_msgs::msg::Header header; Pose pose;
  template<class F> void simros_visit(F && f) {f(header); f(pose);}
};
struct TransformStamped {
  SIMROS_PTRS(TransformStamped)
  std_msgs::msg::Header header; std::string child_frame_id; Transform transform;
  template<class F> void simros_visit(F && f) {f(header); f(child_frame_id); f(transform);}
};
struct PoseArray {
  SIMROS_PTRS(PoseArray)
  std_msgs::msg::Header header; std::vector<Pose> poses;
  template<class F> void simros_visit(F && f) {f(header); f(poses);}
};
struct PoseWithCovariance {
  SIMROS_PTRS(PoseWithCovariance)
  Pose pose; std::array<double, 36> covariance{};
  template<class F> void simros_visit(F && f) {f(pose); f(covariance);}
};
struct PoseWithCovarianceStamped {
  SIMROS_PTRS(PoseWithCovarianceStamped)
  std_msgs::msg::Header header; PoseWithCovariance pose;
  template<class F> void simros_visit(F && f) {f(header); f(pose);}
};
}}
namespace nav_msgs { namespace msg {
struct MapMetaData {
  SIMROS_PTRS(MapMetaData)
  builtin_interfaces::msg::Time map_load_time; float resolution = 0;
  uint32_t width = 0, height = 0; geometry_msgs::msg::Pose origin;
};
struct OccupancyGrid {
  SIMROS_PTRS(OccupancyGrid)
  std_msgs::msg::Header header; MapMetaData info; std::vector<int8_t> data;
};
}}
namespace sensor_msgs { namespace msg {
struct LaserScan {
  SIMROS_PTRS(LaserScan)
  std_msgs::msg::Header header;
  float angle_min = 0, angle_max = 0, angle_increment = 0, time_increment = 0, scan_time = 0,
    range_min = 0, range_max = 0;
  std::vector<float> ranges, intensities;
};
}}
namespace visualization_msgs { namespace msg {
struct Marker {
  SIMROS_PTRS(Marker)
  static constexpr int32_t ARROW = 0, CUBE = 1, SPHERE = 2, CYLINDER = 3, LINE_STRIP = 4,
    LINE_LIST = 5, CUBE_LIST = 6, SPHERE_LIST = 7, POINTS = 8, TEXT_VIEW_FACING = 9,
    MESH_RESOURCE = 10, TRIANGLE_LIST = 11;
  static constexpr int32_t ADD = 0, MODIFY = 0, DELETE = 2, DELETEALL = 3;
  std_msgs::msg::Header header; std::string ns; int32_t id = 0, type = 0, action = 0;
  geometry_msgs::msg::Pose pose; geometry_msgs::msg::Vector3 scale; std_msgs::msg::ColorRGBA color;
  builtin_interfaces::msg::Duration lifetime; bool frame_locked = false;
  std::vector<geometry_msgs::msg::Point> points; std::vector<std_msgs::msg::ColorRGBA> colors;
  std::string text;
};
struct MarkerArray {
  SIMROS_PTRS(MarkerArray)
  std::vector<Marker> markers;
};
}}
