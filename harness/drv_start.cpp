// The node comes up with every kind of configuration, and does its first work.
// out= seed= n= part= parts= in=configurations
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ndt_2d/graph.hpp>
#include <ndt_2d/ndt_mapper.hpp>
#include <pluginlib/class_list_macros.hpp>
#include <simros/world.cpp.inc>
#include "log.hpp"
#include "sched.hpp"
using ndt_2d::Point;
using ndt_2d::Pose2d;
using LaserScan = sensor_msgs::msg::LaserScan;
using InitialPose = geometry_msgs::msg::PoseWithCovarianceStamped;
using Configure = ndt_2d::srv::Configure;

static Rng * g_seed;     // std::random_device
extern "C" unsigned int _ZNSt13random_device9_M_getvalEv(void *) {return static_cast<unsigned int>(g_seed->next());}
static const size_t kShm = 8u << 20;
struct Shm {size_t used; char buf[1];};
static Shm * shm;
static void put(const Ev & e)
{
  std::string s = e.s + "}\n";
  if (shm->used + s.size() + sizeof(Shm) > kShm) {_exit(4);}
  memcpy(shm->buf + shm->used, s.data(), s.size());
  shm->used += s.size();
}
struct Quiet {Quiet() {++sched::quiet;} ~Quiet() {--sched::quiet;}};
static Pose2d seen(const Pose2d & a, const Pose2d & b)       // b in the frame of a
{
  double dx = b.x - a.x, dy = b.y - a.y;
  return Pose2d(std::cos(a.theta) * dx + std::sin(a.theta) * dy, std::cos(a.theta) * dy - std::sin(a.theta) * dx, b.theta - a.theta);
}
static Pose2d after(const Pose2d & a, const Pose2d & d)
{
  return Pose2d(a.x + std::cos(a.theta) * d.x - std::sin(a.theta) * d.y, a.y + std::sin(a.theta) * d.x + std::cos(a.theta) * d.y, a.theta + d.theta);
}
static std::string q(const std::string & s) {return "\"" + s + "\"";}

// what happened since the last event
static std::vector<std::string> made, used, maps, tfs, clouds;
static std::string list(std::vector<std::string> & v)
{
  std::string s;
  for (auto & x : v) {s += (s.empty() ? "" : ",") + x;}
  v.clear();
  return "[" + s + "]";
}
struct Fake : ndt_2d::ScanMatcher
{
  std::string type, name;
  explicit Fake(const std::string & t) : type(t) {}
  void initialize(const std::string & n, rclcpp::Node *, double r) override
  {
    Quiet z;
    name = n;
    made.push_back("{\"type\":" + q(type) + ",\"name\":" + q(n) + ",\"range\":" + num(r) + "}");
  }
  void use(const char * what, size_t n) const
  {
    Quiet z;
    used.push_back("{\"by\":" + q(name) + ",\"what\":" + q(what) + ",\"n\":" + std::to_string(n) + "}");
  }
  void addScans(const std::vector<ndt_2d::ScanPtr>::const_iterator &, const std::vector<ndt_2d::ScanPtr>::const_iterator &) override {}
  double matchScan(const ndt_2d::ScanPtr & s, Pose2d &, Eigen::Matrix3d & c) const override
  {
    use("match", s->getPoints().size());
    c = 1e-3 * Eigen::Matrix3d::Identity();
    return -0.5;
  }
  double scoreScan(const ndt_2d::ScanPtr & s) const override {use("score", s->getPoints().size()); return -0.5;}
  double scorePoints(const std::vector<Point> & p, const Pose2d &) const override
  {
    if (used.empty()) {use("points", p.size());}
    return -0.5;
  }
  void reset() override {}
};
struct Sim
{
  Rng r, sr, dr;
  std::vector<std::string> cfg;
  bool alive = true, known = true;
  int64_t clock = 5000000000LL, stamp = 0, arrived = 0, missS = 0, missE = 0, waited = 0;
  std::string robot = "base_link", odomf = "odom", laser = "laser";
  double timeout = 0.2, rmax = 6;
  Pose2d odom, mount;
  bool wantmap = false;
  Sim(uint64_t seed, const std::vector<std::string> & c) : r(seed), sr(seed ^ 0x5555), dr(seed ^ 0xaaaa), cfg(c) {}
  int64_t avail(int64_t t) const {return t == 0 ? 0 : arrived + (t > stamp ? missE : missS);}
  bool between(const std::string & a, const std::string & b) const
  {
    return (a == robot && b == odomf) || (a == odomf && b == robot);
  }
  void wait(const std::string & a, const std::string & b, int64_t t, int64_t patience)
  {
    Quiet z;
    if (t == 0 || clock >= avail(t) || patience <= 0) {return;}
    int64_t till = between(a, b) ? std::min(avail(t), clock + patience) : clock + patience;
    waited += till - clock;
    clock = till;
  }
  bool tf(const std::string & a, const std::string & b, int64_t t, double * v)
  {
    Quiet z;
    auto where = [&](const std::string & f, Pose2d & p) {
        if (f == odomf) {p = Pose2d(); return true;}
        if (f == robot) {p = odom; return true;}
        if (f == laser && known) {p = after(odom, mount); return true;}
        return false;
      };
    Pose2d pa, pb;
    if (!where(a, pa) || !where(b, pb) || (between(a, b) && clock < avail(t))) {return false;}
    Pose2d p = seen(pa, pb);
    v[0] = p.x; v[1] = p.y; v[2] = v[3] = v[4] = 0; v[5] = std::sin(p.theta / 2); v[6] = std::cos(p.theta / 2);
    return true;
  }
  void rest(int n)
  {
    for (int k = 0; k < n; ++k) {
      for (auto t : std::vector<sched::Th *>(sched::threads)) {if (t->id && t->st != sched::DONE) {sched::round(t);}}
    }
  }
  void request(int action, const std::string & file)
  {
    auto m = std::make_shared<Configure::Request>();
    m->action = action; m->filename = file;
    std::any_cast<std::function<void(std::shared_ptr<Configure::Request>, std::shared_ptr<Configure::Response>)> &>(
      simros::world().services.at("configure"))(m, std::make_shared<Configure::Response>());
  }
  int saves = 0;
  int nodes()
  {
    std::string f = "look" + std::to_string(++saves);
    request(Configure::Request::SAVE_TO_FILE, f);
    Quiet z;
    ndt_2d::Graph g(true, f);
    return static_cast<int>(g.scans.size());
  }
  Ev effects(Ev e)
  {
    e.i("nodes", nodes());
    e.raw("made", list(made)).raw("used", list(used)).raw("maps", list(maps)).raw("tfs", list(tfs)).raw("clouds", list(clouds));
    return e;
  }
  void scan()
  {
    auto m = std::make_shared<LaserScan>();
    m->header.frame_id = laser;
    clock += 1000000000;
    odom.x += r.u(0.4, 1.0); odom.y += r.u(-0.1, 0.1); odom.theta += r.u(-0.3, 0.3);
    stamp = arrived = clock;
    m->header.stamp = rclcpp::Time(stamp);
    int64_t T = static_cast<int64_t>(timeout * 1e9);
    auto miss = [&] {return r.coin(0.5) ? int64_t(0) : r.coin(0.6) ? T / 2 : 5 * T;};
    missS = miss(); missE = miss();
    bool takes = r.coin(0.8);
    if (!takes) {missE = missS;}
    int n = 6 + r.below(6);
    m->angle_min = -1; m->angle_increment = 0.2; m->angle_max = -1 + 0.2 * n; m->range_min = 0.05; m->range_max = rmax;
    m->time_increment = takes ? 0.002 : 0;
    std::vector<double> v;
    for (int i = 0; i < n; ++i) {
      v.push_back(static_cast<float>(r.u(0.5, 12)));
      m->ranges.push_back(v.back());
    }
    waited = 0;
    std::any_cast<std::function<void(LaserScan::ConstSharedPtr)> &>(simros::world().subscriptions.at("scan"))(m);
    auto ms = [](int64_t t) {return t / 1000000;};
    int64_t w = waited;
    put(effects(Ev("scan").r("rmax", static_cast<float>(rmax)).b("known", known).i("s", ms(missS)).i("end", ms(missE)).i("waited", ms(w))
      .raw("ranges", jarr(v, [](double x) {return num(x);}))));
    if (known) {rmax = r.u(3, 9);}       // other readings to come
  }
  void pose(bool ours)
  {
    auto m = std::make_shared<InitialPose>();
    m->header.frame_id = ours ? "map" : r.coin() ? odomf : "world";
    m->pose.pose.position.x = r.u(-0.1, 0.1); m->pose.pose.position.y = r.u(-0.1, 0.1);
    m->pose.pose.orientation.w = 1;
    m->pose.covariance[0] = m->pose.covariance[7] = m->pose.covariance[35] = 0.01;
    clock += 100000000;
    std::any_cast<std::function<void(InitialPose::ConstSharedPtr)> &>(simros::world().subscriptions.at("initialpose"))(m);
    put(effects(Ev("pose").b("ours", ours)));
  }
  void tick()
  {
    rest(3);
    put(effects(Ev("tick")));
  }
  void run()
  {
    auto & w = simros::world();
    g_seed = &dr;
    auto & reg = pluginlib::simros_registry<ndt_2d::ScanMatcher>();
    reg.clear();
    for (std::string t : {"ndt_2d::ScanMatcherNDT", "ndt_2d_karto::ScanMatcherKarto"}) {reg[t] = [t] {return std::make_shared<Fake>(t);};}
    w.ok = [this] {sched::point("ok"); return alive;};
    w.now_ns = [this] {return clock += 1000;};
    std::map<std::string, bool> latched;
    w.on_advertise = [&](const std::string & t, bool l) {latched[t] = l;};
    w.on_publish = [&](const std::string & t, const std::any & m) {
        Quiet z;
        if (t == "map") {
          auto & g = std::any_cast<const nav_msgs::msg::OccupancyGrid &>(m);
          maps.push_back("{\"frame\":" + q(g.header.frame_id) + ",\"res\":" + num(g.info.resolution) + ",\"kept\":" + (latched[t] ? "true" : "false") +
            ",\"cells\":" + std::to_string(g.data.size()) + "}");
        }
        if (t == "particlecloud") {
          auto & c = std::any_cast<const geometry_msgs::msg::PoseArray &>(m);
          clouds.push_back("{\"frame\":" + q(c.header.frame_id) + ",\"n\":" + std::to_string(c.poses.size()) + "}");
        }
      };
    w.on_tf = [this](const std::any & m) {
        Quiet z;
        auto & t = std::any_cast<const geometry_msgs::msg::TransformStamped &>(m);
        tfs.push_back("{\"frame\":" + q(t.header.frame_id) + ",\"child\":" + q(t.child_frame_id) + "}");
      };
    w.tf = [this](const std::string & a, const std::string & b, int64_t t, double * v) {return tf(a, b, t, v);};
    w.tf_wait = [this](const std::string & a, const std::string & b, int64_t t, int64_t p) {wait(a, b, t, p);};
    sched::p_switch = 0; sched::p_wake = 0; sched::cap = 5000000;
    sched::on_fatal = [](const char * s) {put(Ev(s)); _exit(0);};
    // words: map, pf, enable, frames, timeout, range, type, resolution
    std::string map = cfg.at(0), pf = cfg.at(1), en = cfg.at(2), frames = cfg.at(3), tmo = cfg.at(4), range = cfg.at(5), type = cfg.at(6), res = cfg.at(7);
    auto & p = w.params;
    int loaded = 0;
    if (map == "file") {
      Quiet z;
      ndt_2d::Graph g(true);
      for (int i = 0, n = 1 + r.below(4); i < n; ++i) {
        auto s = std::make_shared<ndt_2d::Scan>(i);
        s->setPose(Pose2d(0.5 * i, 0, 0));
        s->setPoints({Point(1, 0), Point(1, 0.5), Point(0.5, 1)});
        g.scans.push_back(s);
      }
      loaded = static_cast<int>(g.scans.size());
      g.save("given");
      p["map_file"] = std::string("given");
    } else if (r.coin()) {p["map_file"] = std::string();}
    if (pf != "-") {p["use_particle_filter"] = pf == "yes";}
    if (en != "-") {p["enable_mapping"] = en == "yes";}
    if (frames == "own") {
      robot = "robot1/base"; odomf = "wheels"; laser = "front";
      p["robot_frame"] = robot; p["odom_frame"] = odomf;
    } else if (frames == "near") {
      robot = "base_footprint"; p["robot_frame"] = robot;
    }
    if (tmo == "short") {timeout = 0.04;} else if (tmo == "long") {timeout = 3;}
    p["transform_timeout"] = timeout;
    if (range == "less") {p["max_range"] = 2.5;} else if (range == "more") {p["max_range"] = 20.0;} else if (range == "sensor") {p["max_range"] = -1.0;}
    if (type == "other") {p["scan_matcher_type"] = std::string("ndt_2d_karto::ScanMatcherKarto");}
    double rs = 0.05;
    if (res != "-") {rs = res == "fine" ? 0.1 : 0.7; p["resolution"] = rs;}
    // how many particles the filter keeps is decided by one of its parameters
    int least = 10 + r.below(20), most = least + 10 + r.below(50);
    p["min_particles"] = least; p["max_particles"] = most;
    for (auto k : {"odom_alpha1", "odom_alpha2", "odom_alpha3", "odom_alpha4", "odom_alpha5"}) {p[k] = 4.0;}
    int kld = r.below(4), few = least, many = most;
    if (kld == 1) {p["kld_err"] = 1000.0; p["kld_z"] = 0.0; many = least;}
    if (kld == 2) {p["kld_err"] = 1e-7; few = most;}
    if (kld == 3) {p["kld_err"] = 1.0; p["kld_z"] = 1000.0; few = most;}
    mount = Pose2d(r.u(-0.3, 0.3), r.u(-0.3, 0.3), r.u(-1, 1));
    odom = Pose2d(r.u(-5, 5), r.u(-5, 5), r.u(-3, 3));
    rmax = r.u(3, 9);
    known = r.coin(0.8);
    sched::begin(sr);
    auto node = std::make_shared<ndt_2d::Mapper>(rclcpp::NodeOptions());
    put(effects(Ev("new").raw("cfg", jarr(cfg, q)).i("loaded", loaded).i("timeout", timeout * 1000).r("range", range == "less" ? 2.5 : range == "more" ? 20 : -1)
      .t("odom", odomf).i("few", few).i("many", many).r("res", rs).b("rescheck", res != "-").b("filtertopic", latched.count("particlecloud") > 0)));
    if (r.coin()) {tick();}
    int early = map == "file" ? r.below(3) : 0;
    for (int k = 0; k < early; ++k) {
      if (r.coin(0.3)) {pose(false);}
      scan();
      if (r.coin(0.5)) {known = true;}
      if (r.coin(0.5)) {tick();}
    }
    if (map == "file" || r.coin(0.2)) {pose(true);}
    for (int k = 0; k < 5; ++k) {
      if (r.coin(0.2)) {pose(r.coin(0.3));}
      scan();
      known = true;
      if (r.coin(0.5)) {tick();}
    }
    tick();
    alive = false;
    node.reset();
    put(Ev("down"));
    _exit(0);
  }
};

int main(int argc, char ** argv)
{
  Args a(argc, argv);
  Log log(a.s("out").c_str());
  uint64_t seed = a.i("seed", 1);
  long n = a.i("n", 1), part = a.i("part", 0), parts = a.i("parts", 1);
  auto mem = mmap(nullptr, kShm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shm = static_cast<Shm *>(mem);
  std::ifstream in(a.s("in"));
  std::vector<std::vector<std::string>> cfgs;
  for (std::string line; std::getline(in, line); ) {
    std::istringstream is(line);
    std::vector<std::string> v;
    for (std::string w; is >> w; ) {v.push_back(w);}
    if (v.size() >= 8) {cfgs.push_back(v);}
  }
  if (cfgs.empty()) {fprintf(stderr, "no configurations\n"); return 3;}
  for (long rep = 0; rep < n; ++rep) {
    for (size_t i = part; i < cfgs.size(); i += parts) {
      shm->used = 0;
      fflush(log.f);
      pid_t pid = fork();
      if (pid == 0) {
        alarm(60);
        Sim s((seed + rep * 31) * 1000003 + i * 7919 + 17, cfgs[i]);
        s.run();
      }
      int st = 0;
      waitpid(pid, &st, 0);
      std::string t(shm->buf, shm->used);
      if (WIFSIGNALED(st)) {t += "{\"e\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}\n";}
      else if (WEXITSTATUS(st)) {t += "{\"e\":\"crash\",\"sig\":" + std::to_string(1000 + WEXITSTATUS(st)) + "}\n";}
      fwrite(t.data(), 1, t.size(), log.f);
    }
  }
  log(Ev("end"));
  return 0;
}
