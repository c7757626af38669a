// Runs the node with its real threads against a scripted environment (for demonstrations)
#pragma once
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <mutex>
#include <thread>
#include <ndt_2d/ndt_mapper.hpp>
#include <ndt_2d/graph.hpp>
#include <simros/world.cpp.inc>
#include <pluginlib/class_list_macros.hpp>
struct Fake : ndt_2d::ScanMatcher
{
  // hooks: name of the matcher, scan -> correction, score
  static std::function<double(const std::string &, const ndt_2d::ScanPtr &, ndt_2d::Pose2d &, Eigen::Matrix3d &)> match;
  static std::function<void(const std::string &, std::vector<ndt_2d::ScanPtr>)> added;
  static std::function<double(const std::string &, const ndt_2d::Pose2d &)> score;
  std::string name;
  void initialize(const std::string & n, rclcpp::Node *, double) override {name = n;}
  void addScans(const std::vector<ndt_2d::ScanPtr>::const_iterator & b,
                const std::vector<ndt_2d::ScanPtr>::const_iterator & e) override
  {
    if (added) added(name, std::vector<ndt_2d::ScanPtr>(b, e));
  }
  double matchScan(const ndt_2d::ScanPtr & s, ndt_2d::Pose2d & p, Eigen::Matrix3d & c) const override
  {
    c = 1e-3 * Eigen::Matrix3d::Identity();
    return match ? match(name, s, p, c) : -0.5;
  }
  double scoreScan(const ndt_2d::ScanPtr &) const override {return -0.5;}
  double scorePoints(const std::vector<ndt_2d::Point> &, const ndt_2d::Pose2d & p) const override
  {
    return score ? score(name, p) : -0.5;
  }
  void reset() override {}
};
decltype(Fake::match) Fake::match;
decltype(Fake::added) Fake::added;
decltype(Fake::score) Fake::score;
PLUGINLIB_EXPORT_CLASS(Fake, ndt_2d::ScanMatcher)
using LaserScan = sensor_msgs::msg::LaserScan;
using InitialPose = geometry_msgs::msg::PoseWithCovarianceStamped;
using Configure = ndt_2d::srv::Configure;
using Markers = visualization_msgs::msg::MarkerArray;
using Grid = nav_msgs::msg::OccupancyGrid;
using Transform = geometry_msgs::msg::TransformStamped;
struct Sim
{
  std::atomic<bool> stop{false};
  std::mutex m;
  ndt_2d::Pose2d odom;                    // odometry -> robot, at any time asked for
  std::function<bool(const std::string &, const std::string &, int64_t, double *)> tf;
  std::vector<Markers> graphs;
  std::vector<Grid> grids;
  std::vector<Transform> tfs;
  std::vector<geometry_msgs::msg::PoseArray> clouds;
  std::shared_ptr<ndt_2d::Mapper> node;
  int64_t stamp = 1000000000;
  std::function<void(const std::string &)> published;
  Sim()
  {
    auto & w = simros::world();
    w.params["scan_matcher_type"] = std::string("Fake");
    w.ok = [this] {return !stop;};
    w.tf = [this](const std::string & target, const std::string & source, int64_t t, double * v) {
        if (tf && !tf(target, source, t, v)) return false;
        if (tf) return true;
        std::lock_guard<std::mutex> g(m);
        if (target == "odom") {v[0] = odom.x; v[1] = odom.y; v[5] = sin(odom.theta / 2); v[6] = cos(odom.theta / 2);}
        return true;
      };
    w.on_publish = [this](const std::string & topic, const std::any & a) {
        {
          std::lock_guard<std::mutex> g(m);
          if (topic == "graph") graphs.push_back(std::any_cast<Markers>(a));
          if (topic == "map") grids.push_back(std::any_cast<Grid>(a));
          if (topic == "particlecloud") clouds.push_back(std::any_cast<geometry_msgs::msg::PoseArray>(a));
        }
        if (published) published(topic);
      };
    w.on_tf = [this](const std::any & a) {
        {
          std::lock_guard<std::mutex> g(m);
          tfs.push_back(std::any_cast<Transform>(a));
        }
        if (published) published("tf");
      };
  }
  template<class T> static void param(const std::string & n, T v) {simros::world().params[n] = v;}
  void start() {node = std::make_shared<ndt_2d::Mapper>(rclcpp::NodeOptions());}
  void end() {stop = true; node.reset();}
  void at(double x, double y, double th) {std::lock_guard<std::mutex> g(m); odom = ndt_2d::Pose2d(x, y, th);}
  std::shared_ptr<LaserScan> laser(int n = 9)
  {
    auto s = std::make_shared<LaserScan>();
    s->header.frame_id = "laser";
    stamp += 1000000000;
    s->header.stamp.sec = stamp / 1000000000;
    s->angle_min = -1.0; s->angle_max = 1.0; s->angle_increment = n > 1 ? 2.0 / (n - 1) : 0.0;
    s->range_max = 10.0;
    s->ranges.assign(n, 2.0f);
    return s;
  }
  void send(std::shared_ptr<LaserScan> s)
  {
    std::any_cast<std::function<void(LaserScan::ConstSharedPtr)>>(simros::world().subscriptions.at("scan"))(s);
  }
  void scan(double x, double y, double th, int n = 9) {at(x, y, th); send(laser(n));}
  void pose(double x, double y, double th, const std::string & frame = "map", std::array<double, 36> cov = {})
  {
    auto p = std::make_shared<InitialPose>();
    p->header.frame_id = frame;
    p->pose.pose.position.x = x; p->pose.pose.position.y = y;
    p->pose.pose.orientation.z = sin(th / 2); p->pose.pose.orientation.w = cos(th / 2);
    for (int i : {0, 7, 35}) if (cov[i] == 0) cov[i] = 0.01;
    p->pose.covariance = cov;
    std::any_cast<std::function<void(InitialPose::ConstSharedPtr)>>(simros::world().subscriptions.at("initialpose"))(p);
  }
  void configure(int action, const std::string & file = "")
  {
    auto q = std::make_shared<Configure::Request>();
    q->action = action; q->filename = file;
    std::any_cast<std::function<void(std::shared_ptr<Configure::Request>, std::shared_ptr<Configure::Response>)>>(
      simros::world().services.at("configure"))(q, std::make_shared<Configure::Response>());
  }
  // what is in the map now
  ndt_2d::Graph saved()
  {
    static int k = 0;
    std::string f = "saved-" + std::to_string(k++);
    configure(Configure::Request::SAVE_TO_FILE, f);
    return ndt_2d::Graph(true, f);
  }
  static int nodes(const Markers & g) {int n = 0; for (auto & m : g.markers) n += m.ns == "nodes"; return n;}
};
inline void wait(double s) {std::this_thread::sleep_for(std::chrono::milliseconds(int(s * 1000)));}
