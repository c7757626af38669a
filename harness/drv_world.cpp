// The whole node with its own scan matcher, driven through a world of walls.
// out= seed= n= part= parts=
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ndt_2d/graph.hpp>
#include <ndt_2d/ndt_mapper.hpp>
#include <simros/world.cpp.inc>
#include "log.hpp"
#include "sched.hpp"
using ndt_2d::Pose2d;
using LaserScan = sensor_msgs::msg::LaserScan;
using InitialPose = geometry_msgs::msg::PoseWithCovarianceStamped;
using Configure = ndt_2d::srv::Configure;

static Rng * g_seed;     // std::random_device
extern "C" unsigned int _ZNSt13random_device9_M_getvalEv(void *) {return static_cast<unsigned int>(g_seed->next());}
static const size_t kShm = 64u << 20;
struct Shm {size_t used; char buf[1];};
static Shm * shm;
static void put(const Ev & e)
{
  std::string s = e.s + "}\n";
  if (shm->used + s.size() + sizeof(Shm) > kShm) {_exit(4);}
  memcpy(shm->buf + shm->used, s.data(), s.size());
  shm->used += s.size();
}
struct Quiet {Quiet() {++sched::quiet;} ~Quiet() {--sched::quiet;}};
static double wrap(double a) {return std::atan2(std::sin(a), std::cos(a));}
static Pose2d after(const Pose2d & a, const Pose2d & d)      // d in the frame of a
{
  return Pose2d(a.x + std::cos(a.theta) * d.x - std::sin(a.theta) * d.y, a.y + std::sin(a.theta) * d.x + std::cos(a.theta) * d.y, wrap(a.theta + d.theta));
}
static Pose2d seen(const Pose2d & a, const Pose2d & b)       // b in the frame of a
{
  double dx = b.x - a.x, dy = b.y - a.y;
  return Pose2d(std::cos(a.theta) * dx + std::sin(a.theta) * dy, std::cos(a.theta) * dy - std::sin(a.theta) * dx, wrap(b.theta - a.theta));
}
static std::string jp(const Pose2d & p) {return jxyt(p.x, p.y, p.theta);}

struct Wall {double x0, y0, x1, y1;};
struct Box {double x0, y0, x1, y1;};
struct World
{
  std::vector<Wall> walls;
  std::vector<Box> boxes;      // solid
  double w, h;
  void box(double x0, double y0, double x1, double y1)
  {
    walls.push_back({x0, y0, x1, y0}); walls.push_back({x1, y0, x1, y1}); walls.push_back({x1, y1, x0, y1}); walls.push_back({x0, y1, x0, y0});
  }
  explicit World(Rng & r)
  {
    w = r.u(5, 8); h = r.u(4, 6);
    box(0, 0, w, h);
    // closets along the walls and a pillar or two
    for (int i = 0, n = 3 + r.below(3); i < n; ++i) {
      double a = r.u(0.3, 0.8), b = r.u(0.3, 0.8), x = r.u(0.2, w - a - 0.2), y = r.u(0.2, h - b - 0.2);
      if (i % 2) {y = r.coin() ? 0 : h - b;} else {x = r.coin() ? 0 : w - a;}
      boxes.push_back({x, y, x + a, y + b});
      box(x, y, x + a, y + b);
    }
  }
  bool free(double x, double y, double m) const
  {
    if (x < m || y < m || x > w - m || y > h - m) {return false;}
    for (auto & b : boxes) {if (x > b.x0 - m && x < b.x1 + m && y > b.y0 - m && y < b.y1 + m) {return false;}}
    return true;
  }
  double range(double x, double y, double a) const
  {
    double best = 1e9, c = std::cos(a), s = std::sin(a);
    for (auto & l : walls) {
      double ex = l.x1 - l.x0, ey = l.y1 - l.y0, d = c * ey - s * ex;
      if (std::fabs(d) < 1e-12) {continue;}
      double t = ((l.x0 - x) * ey - (l.y0 - y) * ex) / d, u = ((l.x0 - x) * s - (l.y0 - y) * c) / d;
      if (t > 0 && u >= -1e-9 && u <= 1 + 1e-9 && t < best) {best = t;}
    }
    return best;
  }
};

struct Sim
{
  Rng r, sr, dr;
  World world;
  std::shared_ptr<ndt_2d::Mapper> node;
  bool alive = true;
  int64_t clock = 5000000000LL;
  Pose2d at, odom, origin, mount;     // of the robot in the world, in odometry; the map's origin in the world
  bool inverted = false, have_tf = false;
  Pose2d tf_now;
  nav_msgs::msg::OccupancyGrid grid;
  bool have_grid = false;
  double slip_xy = 0, slip_th = 0, res = 0.1;
  int clouds = 0, depth = 10, optlimit = 4, saves = 0;
  Pose2d drift;
  std::vector<Pose2d> truth;          // where the scans of the map were taken
  std::string kind;
  Sim(uint64_t seed, const std::string & k) : r(seed), sr(seed ^ 0x5555), dr(seed ^ 0xaaaa), world(r), kind(k) {}
  void start(const std::string & mapfile, bool pf, bool enable)
  {
    auto & p = simros::world().params;
    p["resolution"] = res; p["minimum_travel_distance"] = 0.1; p["minimum_travel_rotation"] = 0.3;
    p["rolling_depth"] = depth; p["global_search_size"] = 1.5; p["global_search_limit"] = 3; p["optimization_node_limit"] = optlimit;
    p["use_particle_filter"] = pf; p["enable_mapping"] = enable; p["map_file"] = mapfile; p["max_range"] = -1.0;
    double noise = 0.1;
    if (pf) {
      for (auto k : {"odom_alpha1", "odom_alpha2", "odom_alpha3", "odom_alpha4", "odom_alpha5"}) {p[k] = noise;}
      p["min_particles"] = 200; p["max_particles"] = 600;
    }
    for (std::string m : {"local_scan_matcher", "global_scan_matcher"}) {
      p[m + ".ndt_resolution"] = 0.25; p[m + ".search_angular_resolution"] = 0.01; p[m + ".search_angular_size"] = 0.08;
      p[m + ".search_linear_resolution"] = 0.01; p[m + ".search_linear_size"] = 0.06; p[m + ".laser_max_beams"] = 90;
    }
    node = std::make_shared<ndt_2d::Mapper>(rclcpp::NodeOptions());
  }
  bool tf(const std::string & target, const std::string & source, int64_t, double * v)
  {
    auto set = [&](const Pose2d & p, bool inv) {
        v[0] = p.x; v[1] = p.y; v[2] = 0;
        v[3] = inv ? std::cos(p.theta / 2) : 0; v[4] = inv ? std::sin(p.theta / 2) : 0;
        v[5] = inv ? 0 : std::sin(p.theta / 2); v[6] = inv ? 0 : std::cos(p.theta / 2);
      };
    if (source == "laser") {set(mount, inverted);} else {set(odom, false);}
    return true;
  }
  void rest(int n)
  {
    for (int k = 0; k < n; ++k) {
      for (auto t : std::vector<sched::Th *>(sched::threads)) {if (t->id && t->st != sched::DONE) {sched::round(t);}}
    }
  }
  void scan(const Pose2d & d, bool moved = true)
  {
    at = after(at, d);
    Pose2d e = d;
    if (moved) {e.x += drift.x; e.y += drift.y; e.theta += drift.theta; e.x += r.u(-slip_xy, slip_xy); e.y += r.u(-slip_xy, slip_xy); e.theta += r.u(-slip_th, slip_th);}
    odom = after(odom, e);
    auto m = std::make_shared<LaserScan>();
    m->header.frame_id = "laser";
    clock += 1000000000;
    m->header.stamp = rclcpp::Time(clock);
    int n = 180;
    m->angle_min = -3.1; m->angle_increment = 6.2 / (n - 1); m->angle_max = 3.1; m->range_min = 0.05; m->range_max = 6;
    Pose2d l = after(at, mount);
    for (int i = 0; i < n; ++i) {
      double a = m->angle_min + i * double(m->angle_increment);
      double v = world.range(l.x, l.y, l.theta + (inverted ? -a : a));
      if (r.coin(0.02)) {v = NAN;}
      m->ranges.push_back(v > 6 ? INFINITY : v);
    }
    std::any_cast<std::function<void(LaserScan::ConstSharedPtr)> &>(simros::world().subscriptions.at("scan"))(m);
  }
  // somewhere else, in a straight line
  bool step(Pose2d & d)
  {
    for (int k = 0; k < 60; ++k) {
      Pose2d t(r.u(0.2, 0.4) * (r.coin(0.85) ? 1 : -1), r.coin(0.2) ? r.u(-0.1, 0.1) : 0, r.u(-0.5, 0.5) * (k > 20 ? 4 : 1));
      Pose2d p = after(at, t);
      if (world.free(p.x, p.y, 0.35)) {d = t; return true;}
    }
    d = Pose2d(0, 0, 1.0);
    return false;
  }
  Pose2d believed() const {return after(tf_now, odom);}
  void told()
  {
    Pose2d truth = seen(origin, at);
    put(Ev("pose").raw("truth", jp(truth)).raw("odom", jp(odom)).raw("tf", have_tf ? "[" + jp(tf_now) + "]" : "[]"));
  }
  void request(int action, const std::string & file)
  {
    auto q = std::make_shared<Configure::Request>();
    q->action = action; q->filename = file;
    std::any_cast<std::function<void(std::shared_ptr<Configure::Request>, std::shared_ptr<Configure::Response>)> &>(
      simros::world().services.at("configure"))(q, std::make_shared<Configure::Response>());
  }
  void initial(const Pose2d & p, double sd)
  {
    auto m = std::make_shared<InitialPose>();
    m->header.frame_id = "map";
    m->pose.pose.position.x = p.x; m->pose.pose.position.y = p.y;
    m->pose.pose.orientation.z = std::sin(p.theta / 2); m->pose.pose.orientation.w = std::cos(p.theta / 2);
    m->pose.covariance[0] = m->pose.covariance[7] = sd * sd; m->pose.covariance[35] = sd * sd;
    std::any_cast<std::function<void(InitialPose::ConstSharedPtr)> &>(simros::world().subscriptions.at("initialpose"))(m);
  }
  void showGrid()
  {
    if (!have_grid) {put(Ev("nogrid")); return;}
    std::vector<std::pair<double, double>> occ, fre;
    for (unsigned y = 0; y < grid.info.height; ++y) {
      for (unsigned x = 0; x < grid.info.width; ++x) {
        int v = grid.data[x + y * grid.info.width];
        std::pair<double, double> c(grid.info.origin.position.x + (x + 0.5) * grid.info.resolution, grid.info.origin.position.y + (y + 0.5) * grid.info.resolution);
        if (v == 100) {occ.push_back(c);} else if (v == 0) {fre.push_back(c);}
      }
    }
    // a sample, and all occupied ones near walls that have to be there
    auto some = [&](std::vector<std::pair<double, double>> v, size_t n) {
        for (size_t i = 0; i < v.size(); ++i) {std::swap(v[i], v[i + r.below(v.size() - i)]);}
        if (v.size() > n) {v.resize(n);}
        return jarr(v, [](const std::pair<double, double> & p) {return jxy(p.first, p.second);});
      };
    put(Ev("grid").i("nocc", occ.size()).i("nfree", fre.size()).raw("occ", some(occ, 120)).raw("free", some(fre, 120)));
  }
  void walk(int steps, bool mapping)
  {
    for (int k = 0; k < steps; ++k) {
      Pose2d d;
      step(d);
      scan(d);
      if (mapping) {truth.push_back(at);}
      rest(1);
      told();
    }
    rest(3);
    told();
  }
  void showMap()
  {
    showGrid();
    std::string f = "saved";
    if (saves) {f += std::to_string(saves);}
    ++saves;
    request(Configure::Request::SAVE_TO_FILE, f);
    Quiet q;
    ndt_2d::Graph g(true, f);
    std::string s;
    for (size_t i = 0; i < g.scans.size(); ++i) {
      s += (i ? "," : "") + std::string("{\"is\":") + jp(g.scans[i]->getPose()) + ",\"truth\":" + (i < truth.size() ? jp(seen(origin, truth[i])) : jp(Pose2d(99, 99, 0))) + "}";
    }
    int loops = 0;
    for (auto & c : g.constraints) {loops += c->switchable;}
    put(Ev("map").raw("nodes", "[" + s + "]").i("taken", truth.size()).i("loops", loops));
  }
  void end()
  {
    alive = false;
    node.reset();
    alive = true;
    have_tf = have_grid = false;
  }
  template<class T> T one(std::initializer_list<T> l) {return l.begin()[r.below(l.size())];}
  void run()
  {
    auto & w = simros::world();
    g_seed = &dr;
    w.ok = [this] {sched::point("ok"); return alive;};
    w.now_ns = [this] {return clock += 1000000;};
    w.on_publish = [this](const std::string & t, const std::any & m) {
        Quiet q;
        if (t == "map") {grid = std::any_cast<const nav_msgs::msg::OccupancyGrid &>(m); have_grid = true;}
        if (t == "particlecloud") {++clouds;}
      };
    w.on_tf = [this](const std::any & m) {
        Quiet q;
        auto & t = std::any_cast<const geometry_msgs::msg::TransformStamped &>(m).transform;
        tf_now = Pose2d(t.translation.x, t.translation.y, 2 * std::atan2(t.rotation.z, t.rotation.w));
        have_tf = true;
      };
    w.tf = [this](const std::string & a, const std::string & b, int64_t t, double * v) {return tf(a, b, t, v);};
    sched::p_switch = 0; sched::p_wake = 0; sched::cap = 5000000;
    sched::on_fatal = [](const char * s) {put(Ev(s)); _exit(0);};
    sched::begin(sr);
    for (int k = 0; k < 200; ++k) {
      at = Pose2d(r.u(0.5, world.w - 0.5), r.u(0.5, world.h - 0.5), r.u(-3.1, 3.1));
      if (world.free(at.x, at.y, 0.4)) {break;}
    }
    origin = at;
    odom = r.coin(0.3) ? Pose2d() : Pose2d(r.u(-9, 9), r.u(-9, 9), r.u(-3.1, 3.1));
    mount = Pose2d(r.u(-0.2, 0.2), r.u(-0.2, 0.2), r.coin(0.4) ? 0 : r.u(-3.1, 3.1));
    inverted = r.coin(0.3);
    // odometry that drifts all the time, a little less per step than the matcher looks around
    if (kind != "exact") {
      slip_xy = 0.015; slip_th = 0.015;
      drift = Pose2d(r.u(0.01, 0.03) * (r.coin() ? 1 : -1), r.u(0.01, 0.03) * (r.coin() ? 1 : -1), r.u(0.015, 0.04) * (r.coin() ? 1 : -1));
    }
    depth = one({3, 5, 10}); optlimit = one({0, 4, 12});
    put(Ev("new").t("kind", kind).raw("origin", jp(origin))
      .raw("walls", jarr(world.walls, [&](const Wall & l) {
        Pose2d a = seen(origin, Pose2d(l.x0, l.y0, 0)), b = seen(origin, Pose2d(l.x1, l.y1, 0));
        return "{\"a\":" + jxy(a.x, a.y) + ",\"b\":" + jxy(b.x, b.y) + "}";
      })).raw("drift", jp(drift)).r("res", res).i("depth", depth).raw("mount", jp(mount)).b("inv", inverted));
    start("", false, true);
    scan(Pose2d(), false);
    truth.push_back(at);
    rest(2);
    told();
    walk(kind == "loop" ? 26 : 14, true);
    showMap();
    if (kind == "track" || kind == "filter" || kind == "extend" || kind == "resume") {
      if (kind == "resume") {
        // lost and found again
        request(Configure::Request::DISABLE_MAPPING, "");
        put(Ev("lost").t("how", "disabled"));
      } else {
        end();
        put(Ev("lost").t("how", "restarted"));
        start("saved", kind == "filter", kind == "extend");
        request(0, "");
      }
      // the robot is carried about, its odometry goes on from anywhere
      Pose2d d;
      for (int k = 0; k < 4; ++k) {if (step(d)) {at = after(at, d);}}
      odom = Pose2d(r.u(-9, 9), r.u(-9, 9), r.u(-3.1, 3.1));
      if (kind != "resume") {scan(Pose2d(), false);}
      Pose2d guess = seen(origin, at);
      guess.x += r.u(-0.03, 0.03); guess.y += r.u(-0.03, 0.03); guess.theta += r.u(-0.03, 0.03);
      initial(guess, 0.05);
      put(Ev("found").raw("guess", jp(guess)));
      if (kind == "extend" || kind == "resume") {truth.push_back(at);}
      if (kind == "resume") {truth.pop_back();}
      rest(1);
      told();
      walk(12, kind == "extend");
      if (kind != "filter") {showMap();}
    }
    end();
    put(Ev("down"));
    _exit(0);
  }
};

int main(int argc, char ** argv)
{
  Args a(argc, argv);
  Log log(a.s("out").c_str());
  long n = a.i("n", 8);
  uint64_t seed = a.i("seed", 1);
  auto mem = mmap(nullptr, kShm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shm = static_cast<Shm *>(mem);
  const char * kinds[] = {"drift", "exact", "loop", "track", "extend", "resume", "filter"};
  for (long i = 0; i < n; ++i) {
    shm->used = 0;
    fflush(log.f);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(120);
      Sim s(seed * 1000003 + i * 7919 + 17, kinds[i % 7]);
      s.run();
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string t(shm->buf, shm->used);
    if (WIFSIGNALED(st)) {t += "{\"e\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}\n";}
    else if (WEXITSTATUS(st)) {t += "{\"e\":\"crash\",\"sig\":" + std::to_string(1000 + WEXITSTATUS(st)) + "}\n";}
    fwrite(t.data(), 1, t.size(), log.f);
  }
  log(Ev("end"));
  return 0;
}
