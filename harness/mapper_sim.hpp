// The whole node in a simulated world: scripted inputs, a scripted scan matcher, one thread at a time.
// Every scenario runs in a process of its own.   out= seed= n= part= parts= [in=histories] [kind=]
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <ndt_2d/ceres_solver.hpp>
#include <ndt_2d/conversions.hpp>
#include <ndt_2d/graph.hpp>
#include <ndt_2d/ndt_mapper.hpp>
#include <ndt_2d/occupancy_grid.hpp>
#include <ndt_2d/scan_matcher.hpp>
#include <pluginlib/class_list_macros.hpp>
#include <simros/world.cpp.inc>
#include "log.hpp"
#include "sched.hpp"
#include "race.hpp"
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::Scan;
using ndt_2d::ScanPtr;
using ndt_2d::Constraint;
using ndt_2d::ConstraintPtr;
using ndt_2d::Graph;

// ------------------------------------------------------------------ events survive the death of the process
struct Shm
{
  size_t used;
  char role[64];       // what a thread turned out to do
  int64_t nap[64];
  int nseen, nlock;    // see learn()
  long lock[8];
  char buf[1];
};
static const size_t kShm = 96u << 20;
static Shm * shm;
static std::string pending;      // calls of scorePoints are told together
static void flushPoints();
static void put(const Ev & e)
{
  std::string s = e.s + "}\n";
  if (shm->used + s.size() + sizeof(Shm) > kShm) {_exit(4);}
  memcpy(shm->buf + shm->used, s.data(), s.size());
  shm->used += s.size();
}
static int me() {return sched::self ? sched::self->id : 0;}
static Ev ev(const char * e) {flushPoints(); Ev x(e); x.t("th", "@" + std::to_string(me()) + "@"); return x;}
struct Quiet {Quiet() {++sched::quiet; ++race::hush;} ~Quiet() {--sched::quiet; --race::hush;}};
struct NoSwitch {NoSwitch() {++sched::quiet;} ~NoSwitch() {--sched::quiet;}};      // but accesses are reported

// ------------------------------------------------------------------ the graphs of the node
struct Snap
{
  std::vector<ScanPtr> scans;
  std::vector<size_t> id;
  std::vector<Pose2d> pose;
  std::vector<std::vector<Point>> pts;
  std::vector<ConstraintPtr> cons;
  std::vector<Constraint> cval;
};
static std::vector<std::pair<Graph *, Snap>> graphs;    // gid: position; null when gone
static int own = 0;                                     // graphs made by this program
static double g_res = 0.25, g_thresh = 0.25;
static std::string jpose(const Pose2d & p) {return jxyt(p.x, p.y, p.theta);}
static std::string jpts(const std::vector<Point> & v) {return jarr(v, [](const Point & p) {return jxy(p.x, p.y);});}
static std::string jcon(const Constraint & c)
{
  return "\"b\":" + std::to_string(std::min<size_t>(c.begin, 99999)) + ",\"to\":" + std::to_string(std::min<size_t>(c.end, 99999)) +
         ",\"tr\":" + jxyt(c.transform(0), c.transform(1), c.transform(2)) + ",\"info\":" + jmat(c.information) +
         ",\"sw\":" + (c.switchable ? "true" : "false");
}
static std::string hash(const nav_msgs::msg::OccupancyGrid & m)
{
  uint64_t h = 1469598103934665603ull;
  auto add = [&](const void * p, size_t n) {for (size_t i = 0; i < n; ++i) {h = (h ^ static_cast<const uint8_t *>(p)[i]) * 1099511628211ull;}};
  add(&m.info.width, 4); add(&m.info.height, 4); add(&m.info.resolution, 4);
  add(&m.info.origin.position.x, 8); add(&m.info.origin.position.y, 8);
  add(m.data.data(), m.data.size());
  char b[32]; snprintf(b, sizeof b, "%016lx", static_cast<unsigned long>(h));
  return b;
}
static bool samePose(const Pose2d & a, const Pose2d & b) {return memcmp(&a.x, &b.x, 8) == 0 && memcmp(&a.y, &b.y, 8) == 0 && memcmp(&a.theta, &b.theta, 8) == 0;}
static bool samePts(const std::vector<Point> & a, const std::vector<Point> & b)
{
  if (a.size() != b.size()) {return false;}
  for (size_t i = 0; i < a.size(); ++i) {if (a[i].x != b[i].x || a[i].y != b[i].y) {return false;}}
  return true;
}
static bool sameCon(const Constraint & a, const Constraint & b)
{
  return a.begin == b.begin && a.end == b.end && a.transform == b.transform && a.switchable == b.switchable &&
         memcmp(a.information.data(), b.information.data(), 72) == 0;
}
static bool pollable = true;
static const char * node_at = nullptr;      // the node, once it is up
// Which lock is held whenever the map changes?  Found out over the scenarios, as an offset in the node.
static void learn()
{
  if (!node_at || !sched::self) {return;}
  std::vector<long> held;
  for (auto & k : sched::locks) {if (k.second.owner == sched::self) {held.push_back(static_cast<const char *>(k.first) - node_at);}}
  if (shm->nseen++ == 0) {
    shm->nlock = 0;
    for (auto x : held) {if (shm->nlock < 8) {shm->lock[shm->nlock++] = x;}}
    return;
  }
  int n = 0;
  for (int i = 0; i < shm->nlock; ++i) {if (std::find(held.begin(), held.end(), shm->lock[i]) != held.end()) {shm->lock[n++] = shm->lock[i];}}
  shm->nlock = n;
}
static bool changing()      // somebody was interrupted while changing the map
{
  if (sched::torn.empty()) {return false;}
  auto i = sched::locks.find(const_cast<char *>(node_at + shm->lock[0]));
  return i != sched::locks.end() && i->second.owner && std::find(sched::torn.begin(), sched::torn.end(), i->second.owner) != sched::torn.end();
}
static void poll(const char * by = nullptr)
{
  if (!pollable || changing()) {return;}
  Quiet q;
  for (size_t k = 0; k < graphs.size(); ++k) {
    Graph * g = graphs[k].first;
    if (!g) {continue;}
    Snap & s = graphs[k].second;
    std::string ns, nc;
    bool diff = g->scans.size() != s.scans.size() || g->constraints.size() != s.cons.size();
    size_t n = g->scans.size(), m = g->constraints.size();
    s.scans.resize(n); s.id.resize(n); s.pose.resize(n); s.pts.resize(n); s.cons.resize(m); s.cval.resize(m);
    for (size_t i = 0; i < n; ++i) {
      auto & x = g->scans[i];
      if (x && x == s.scans[i] && s.id[i] == x->getId() && samePose(s.pose[i], x->getPose()) && samePts(s.pts[i], x->getPoints())) {continue;}
      diff = true;
      s.scans[i] = x;
      if (!x) {continue;}
      s.id[i] = x->getId(); s.pose[i] = x->getPose(); s.pts[i] = x->getPoints();
      ns += std::string(ns.empty() ? "" : ",") + "{\"i\":" + std::to_string(i) + ",\"id\":" + std::to_string(std::min<size_t>(s.id[i], 99999)) +
        ",\"pose\":" + jpose(s.pose[i]) + ",\"pts\":" + jpts(s.pts[i]) + "}";
    }
    for (size_t i = 0; i < m; ++i) {
      auto & x = g->constraints[i];
      if (x && x == s.cons[i] && sameCon(*x, s.cval[i])) {continue;}
      diff = true;
      s.cons[i] = x;
      if (!x) {continue;}
      s.cval[i] = *x;
      nc += std::string(nc.empty() ? "" : ",") + "{\"i\":" + std::to_string(i) + "," + jcon(*x) + "}";
    }
    if (diff) {
      if (!by) {learn();}
      ndt_2d::OccupancyGrid grid(g_res, g_thresh);
      nav_msgs::msg::OccupancyGrid msg;
      grid.getMsg(g->scans, msg);
      put(ev("g").t("by", by ? by : "node").i("gid", k).i("n", n).i("m", m).raw("scans", "[" + ns + "]").raw("cons", "[" + nc + "]").t("grid", hash(msg)));
    }
  }
}
static std::pair<int, int> whereIs(const ScanPtr & s)
{
  for (size_t k = graphs.size(); k-- > 0; ) {
    auto & v = graphs[k].second.scans;
    for (size_t i = 0; i < v.size(); ++i) {if (v[i] == s) {return {int(k), int(i)};}}
  }
  return {-1, -1};
}
static void born(Graph * g)
{
  race::Hush h;
  if (own || !shm) {return;}
  for (auto & x : graphs) {if (x.first == g) {x.first = nullptr;}}
  graphs.emplace_back(g, Snap());
  put(ev("born").i("gid", graphs.size() - 1));
  poll();
}
extern "C" {
#define GC1 _ZN6ndt_2d5GraphC1Eb
#define GC2 _ZN6ndt_2d5GraphC1EbRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE
#define GD1 _ZN6ndt_2d5GraphD1Ev
#define OPT _ZN6ndt_2d11CeresSolver8optimizeERKSt6vectorISt10shared_ptrINS_10ConstraintEESaIS4_EERS1_IS2_INS_4ScanEESaISA_EE
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(__real_, GC1)(Graph *, bool);
void CAT(__real_, GC2)(Graph *, bool, const std::string &);
void CAT(__real_, GD1)(Graph *);
bool CAT(__real_, OPT)(ndt_2d::CeresSolver *, const std::vector<ConstraintPtr> &, std::vector<ScanPtr> &);
void CAT(__wrap_, GC1)(Graph * g, bool b) {CAT(__real_, GC1)(g, b); born(g);}
void CAT(__wrap_, GC2)(Graph * g, bool b, const std::string & f)
{
  sched::point("load");
  {NoSwitch q; CAT(__real_, GC2)(g, b, f);}
  born(g);
}
void CAT(__wrap_, GD1)(Graph * g)
{
  {race::Hush h; for (auto & x : graphs) {if (x.first == g) {x.first = nullptr;}}}
  CAT(__real_, GD1)(g);
}
bool CAT(__wrap_, OPT)(ndt_2d::CeresSolver * s, const std::vector<ConstraintPtr> & c, std::vector<ScanPtr> & v)
{
  if (own || !shm) {return CAT(__real_, OPT)(s, c, v);}
  race::Hush h;
  sched::point("optimize");
  poll();
  // which graph is this?
  int gid = -1;
  for (size_t k = 0; k < graphs.size(); ++k) {
    auto & g = graphs[k].second;
    if (!g.scans.empty() && !v.empty() && g.scans[0] == v[0]) {gid = k;}
  }
  std::string ids = jarr(v, [](const ScanPtr & x) {return std::to_string(std::min<size_t>(x->getId(), 99999));});
  std::string cs = jarr(c, [](const ConstraintPtr & x) {return "{" + jcon(*x) + "}";});
  std::string in = jarr(v, [](const ScanPtr & x) {return jpose(x->getPose());});
  put(ev("opt").i("gid", gid).raw("ids", ids).raw("cons", cs).raw("poses", in));
  shm->role[me()] = 'l';
  bool r;
  double dev = 0;
  {
    Quiet q;
    std::vector<ScanPtr> copy;
    std::vector<ConstraintPtr> cc = c;
    for (auto & x : v) {copy.push_back(std::make_shared<Scan>(x->getId())); copy.back()->setPose(x->getPose()); copy.back()->setPoints(x->getPoints());}
    {int k = race::hush; race::hush = 0; r = CAT(__real_, OPT)(s, c, v); race::hush = k;}
    if (graphs.size() > 1) {
      auto fresh = new ndt_2d::CeresSolver;
      CAT(__real_, OPT)(fresh, cc, copy);
      for (size_t i = 0; i < copy.size(); ++i) {
        dev = std::max(dev, std::hypot(copy[i]->getPose().x - v[i]->getPose().x, copy[i]->getPose().y - v[i]->getPose().y));
      }
    }
  }
  poll("opt");
  put(ev("opted").i("gid", gid).b("ret", r).r("dev", dev));
  return r;
}
}

// ------------------------------------------------------------------ the scan matcher
static Rng * g_rng;      // answers of the world
static Rng * g_seed;     // std::random_device
extern "C" unsigned int _ZNSt13random_device9_M_getvalEv(void *) {return static_cast<unsigned int>(g_seed->next());}
static bool g_race = false;
static sched::Th * g_stop_at_match = nullptr;
static double g_score_lo = -1, g_score_hi = 0, g_score_odd = 0;
namespace sim
{
struct Matcher;
static const Matcher * points_of = nullptr;
static int points_by = 0;
static std::string points_log, points_scan, points_content;
static bool points_same = true;
struct Matcher : ndt_2d::ScanMatcher
{
  std::string which;
  std::string content;      // [gid, index, pose]
  double range = 0;
  void initialize(const std::string & name, rclcpp::Node *, double r) override
  {
    race::Hush h;
    which = name.find("global") != std::string::npos ? "global" : "local";
    range = r;
    put(ev("m_init").t("m", which).r("range", r));
  }
  // what a real matcher would do to memory
  void touch(bool write) const
  {
    int k = race::hush;
    race::hush = 0;
    race::access(&range, 1, write ? race::W : race::R, __builtin_return_address(0));
    race::hush = k;
  }
  static void touch(const ScanPtr & s)
  {
    int k = race::hush;
    race::hush = 0;
    race::access(&s, sizeof s, race::R, __builtin_return_address(0), false);
    s->getPose();
    s->getPoints();
    race::hush = k;
  }
  void reset() override {sched::point("matcher"); touch(true); Quiet q; flushPoints(); content.clear();}
  void addScans(const std::vector<ScanPtr>::const_iterator & b, const std::vector<ScanPtr>::const_iterator & e) override
  {
    race::Hush h;
    sched::point("matcher");
    touch(true);
    for (auto i = b; i != e; ++i) {touch(*i);}
    Quiet q;
    if (me()) {shm->role[me()] = shm->role[me()] == 'p' ? 'p' : 'l';}
    poll();
    std::string a;
    for (auto i = b; i != e; ++i) {
      auto w = whereIs(*i);
      std::string s = "{\"gid\":" + std::to_string(w.first) + ",\"i\":" + std::to_string(w.second) + ",\"pose\":" + jpose((*i)->getPose()) + "}";
      a += (a.empty() ? "" : ",") + s;
      content += (content.empty() ? "" : ",") + s;
    }
    put(ev("m_add").t("m", which).raw("s", "[" + a + "]"));
  }
  double matchScan(const ScanPtr & s, Pose2d & pose, Eigen::Matrix3d & cov) const override
  {
    race::Hush h;
    if (g_stop_at_match && sched::self == g_stop_at_match) {sched::done_only();}
    sched::point("matcher");
    touch(false);
    touch(s);
    Quiet q;
    if (me()) {shm->role[me()] = shm->role[me()] == 'p' ? 'p' : 'l';}
    poll();
    Rng & r = *g_rng;
    double score = r.u(g_score_lo, g_score_hi);
    if (r.coin(g_score_odd)) {int k = r.below(3); score = k == 0 ? NAN : k == 1 ? INFINITY : -INFINITY;}
    pose = Pose2d();
    if (!r.coin(0.15)) {pose = Pose2d(r.u(-0.05, 0.05), r.u(-0.05, 0.05), r.u(-0.05, 0.05));}
    Eigen::Matrix3d a;
    for (int i = 0; i < 9; ++i) {a(i / 3, i % 3) = r.u(-0.1, 0.1);}
    cov = a * a.transpose() + 0.01 * Eigen::Matrix3d::Identity();
    auto w = whereIs(s);
    put(ev("m_match").t("m", which).i("gid", w.first).i("i", w.second).raw("pose", jpose(s->getPose())).raw("pts", jpts(s->getPoints()))
      .raw("content", "[" + content + "]").r("score", score).raw("corr", jpose(pose)).raw("cov", jmat(cov)));
    return score;
  }
  double scoreScan(const ScanPtr & s) const override
  {
    sched::point("matcher");
    touch(false);
    touch(s);
    Quiet q;
    return -0.25;
  }
  double scorePoints(const std::vector<Point> & p, const Pose2d & pose) const override
  {
    touch(false);
    Quiet q;
    std::string s = jpts(p);
    if (points_of && (points_of != this || points_scan != s || points_by != me())) {flushPoints();}
    points_of = this;
    points_by = me();
    points_scan = s;
    points_content = content;
    double v = g_rng->coin(0.3) ? 0.0 : -g_rng->u(0.1, 1);
    points_log += std::string(points_log.empty() ? "" : ",") + "{\"x\":" + num(pose.x) + ",\"y\":" + num(pose.y) + ",\"t\":" + num(pose.theta) + ",\"v\":" + num(v) + "}";
    return v;
  }
};
}
static void flushPoints()
{
  if (!sim::points_of) {return;}
  auto m = sim::points_of;
  sim::points_of = nullptr;
  Ev e("m_points");
  e.t("th", "@" + std::to_string(sim::points_by) + "@").t("m", m->which).raw("pts", sim::points_scan).raw("at", "[" + sim::points_log + "]").raw("content", "[" + sim::points_content + "]");
  sim::points_log.clear();
  put(e);
}
PLUGINLIB_EXPORT_CLASS(sim::Matcher, ndt_2d::ScanMatcher)

// ------------------------------------------------------------------ a scenario
static double wrap(double a) {return std::atan2(std::sin(a), std::cos(a));}
struct Sim
{
  Rng r, sr, dr;
  std::string kind;
  std::shared_ptr<ndt_2d::Mapper> node;
  bool alive = true;
  int64_t clock = 5000000000LL;
  // parameters
  double mintrav, minrot, gsize, rmax, sensor_max = 8;
  int depth, glimit, optlimit;
  bool bary, pf, enable;
  std::string mapfile;
  // world
  Pose2d odom, start, endp;
  int64_t t0 = 0, t1 = 0;
  bool have_start = true, have_end = true, have_now = true, have_laser = true;
  Pose2d mount;
  bool inverted = false;
  int inputs = 0, saves = 0;
  bool stopped = false;

  Sim(uint64_t seed, const std::string & kind) : r(seed), sr(seed ^ 0x5555), dr(seed ^ 0xaaaa), kind(kind) {}

  static void yawOf(double yaw, bool inv, double * q)
  {
    q[0] = inv ? std::cos(yaw / 2) : 0; q[1] = inv ? std::sin(yaw / 2) : 0;
    q[2] = inv ? 0 : std::sin(yaw / 2); q[3] = inv ? 0 : std::cos(yaw / 2);
  }
  bool tf(const std::string & target, const std::string & source, int64_t t, double * v)
  {
    race::Hush h;
    sched::point("tf");
    auto set = [&](const Pose2d & p, bool inv) {v[0] = p.x; v[1] = p.y; v[2] = 0; yawOf(p.theta, inv, v + 3);};
    if (target == "base_link" && source == "laser") {
      if (!have_laser) {return false;}
      set(mount, inverted);
      return true;
    }
    if (target == "odom" && source == "base_link") {
      if (t == 0) {
        if (!have_now) {return false;}
        set(odom, false);
        return true;
      }
      if (t < t0 - 1000000000 || t > t1 + 1000000000) {return false;}      // nothing known about that time
      bool first = t <= t0 + 1;
      if (first ? !have_start : !have_end) {return false;}
      double k = t1 > t0 ? double(t - t0) / double(t1 - t0) : 0;
      Pose2d p(start.x + k * (endp.x - start.x), start.y + k * (endp.y - start.y), start.theta + k * wrap(endp.theta - start.theta));
      set(p, false);
      return true;
    }
    return false;
  }
  void publish(const std::string & topic, const std::any & m)
  {
    race::Hush h;
    sched::point("publish");
    Quiet q;
    poll();
    if (topic == "map") {
      auto & g = std::any_cast<const nav_msgs::msg::OccupancyGrid &>(m);
      if (me()) {shm->role[me()] = 'p';}
      put(ev("pub_map").t("grid", hash(g)).t("frame", g.header.frame_id));
    } else if (topic == "graph") {
      auto & g = std::any_cast<const visualization_msgs::msg::MarkerArray &>(m);
      if (me()) {shm->role[me()] = 'p';}
      std::string ns, es;
      for (auto & x : g.markers) {
        if (x.type == visualization_msgs::msg::Marker::LINE_STRIP || x.type == visualization_msgs::msg::Marker::LINE_LIST || x.points.size()) {
          es += std::string(es.empty() ? "" : ",") + "{\"a\":" + (x.points.size() > 0 ? jxy(x.points[0].x, x.points[0].y) : "{\"x\":\"nan\",\"y\":\"nan\"}") +
            ",\"b\":" + (x.points.size() > 1 ? jxy(x.points[1].x, x.points[1].y) : "{\"x\":\"nan\",\"y\":\"nan\"}") + ",\"sw\":" + (x.color.g > 0.5 ? "true" : "false") + "}";
        } else {
          ns += std::string(ns.empty() ? "" : ",") + "{\"id\":" + std::to_string(x.id) + ",\"at\":" + jxy(x.pose.position.x, x.pose.position.y) + "}";
        }
      }
      put(ev("pub_graph").raw("nodes", "[" + ns + "]").raw("edges", "[" + es + "]"));
    } else if (topic == "particlecloud") {
      auto & g = std::any_cast<const geometry_msgs::msg::PoseArray &>(m);
      put(ev("cloud").t("frame", g.header.frame_id).raw("at", jarr(g.poses, [](const geometry_msgs::msg::Pose & p) {
          return jxyt(p.position.x, p.position.y, 2 * std::atan2(p.orientation.z, p.orientation.w));})));
    } else {put(ev("pub_other").t("topic", topic));}
  }
  void sendTf(const std::any & m)
  {
    race::Hush h;
    sched::point("sendtf");
    Quiet q;
    poll();
    auto & t = std::any_cast<const geometry_msgs::msg::TransformStamped &>(m);
    if (me()) {shm->role[me()] = 'p';}
    auto & o = t.transform.rotation;
    bool flat = std::fabs(t.transform.translation.z) < 1e-9 && std::fabs(o.x) < 1e-9 && std::fabs(o.y) < 1e-9;
    put(ev("tf").raw("p", jxyt(t.transform.translation.x, t.transform.translation.y, 2 * std::atan2(o.z, o.w)))
      .b("flat", flat).t("frame", t.header.frame_id).t("child", t.child_frame_id));
  }
  static std::string contents(Graph & g)
  {
    std::string s = jarr(g.scans, [](const ScanPtr & x) {return "{\"id\":" + std::to_string(std::min<size_t>(x->getId(), 99999)) + ",\"pose\":" + jpose(x->getPose()) + ",\"pts\":" + jpts(x->getPoints()) + "}";});
    return "\"scans\":" + s + ",\"cons\":" + jarr(g.constraints, [](const ConstraintPtr & c) {return "{" + jcon(*c) + "}";});
  }
  // maps on disk
  void files()
  {
    ++own;
    for (int f = 0; f < 3; ++f) {
      Graph g(bary);
      int n = f == 0 ? 3 + r.below(3) : f == 1 ? 1 + r.below(6) : r.below(2);
      double cx = r.u(-2, 2), cy = r.u(-2, 2);
      for (int i = 0; i < n; ++i) {
        auto s = std::make_shared<Scan>(i);
        s->setPose(Pose2d(cx + r.u(-1, 1), cy + r.u(-1, 1), r.u(-3.1, 3.1)));
        s->setPoints(somePoints(r.coin(0.15) ? 0 : 1 + r.below(4)));
        g.scans.push_back(s);
        if (i) {
          Eigen::Matrix3d c = Eigen::Matrix3d::Identity() * r.u(0.01, 0.05);
          auto k = std::make_shared<Constraint>();
          auto a = g.scans[i - 1]->getPose(), b = s->getPose();
          double dx = b.x - a.x, dy = b.y - a.y;
          k->begin = i - 1; k->end = i;
          k->transform = Eigen::Vector3d(std::cos(a.theta) * dx + std::sin(a.theta) * dy + r.u(-0.1, 0.1), std::cos(a.theta) * dy - std::sin(a.theta) * dx + r.u(-0.1, 0.1), b.theta - a.theta);
          k->information = c.inverse();
          k->switchable = false;
          g.constraints.push_back(k);
        }
      }
      std::string name = std::string("file") + char('A' + f);
      g.save(name);
      put(Ev("file").t("f", name).raw("scans", contents(g).substr(8)));
    }
    // broken in the middle
    auto rec = simros::disk().files["fileA"];
    for (auto & x : rec) {if (&x == &rec.back()) {x.data.resize(x.data.size() / 2);}}
    simros::disk().files["fileX"] = rec;
    --own;
  }
  std::vector<Point> somePoints(int n)
  {
    std::vector<Point> v;
    for (int i = 0; i < n; ++i) {v.emplace_back(r.u(-1.5, 1.5), r.u(-1.5, 1.5));}
    return v;
  }
  template<class T> T one(std::initializer_list<T> l) {return l.begin()[r.below(l.size())];}

  void setup()
  {
    bool loc = kind == "loc", loop = kind == "loop";
    pf = kind == "pf";
    mintrav = one({0.1, 0.3}); minrot = one({0.4, 1.0}); gsize = one({0.3, 0.8, 2.0}); rmax = one({-1.0, -1.0, 1.5});
    depth = one({1, 1, 2, 3}); glimit = one({0, 1, 2, 3, 5}); optlimit = one({0, 1, 3, 6});
    if (loop) {glimit = one({1, 2, 3}); gsize = one({0.8, 2.0}); optlimit = one({0, 0, 2, 4});}
    if (kind == "cfg" && r.coin(0.5)) {gsize = 2.0;}
    if (r.coin(0.04)) {depth = 0;}
    if (r.coin(0.1)) {depth = 5;}
    bary = r.coin(); enable = !r.coin(loc ? 0.6 : 0.08);
    bool gen = kind.compare(0, 3, "gen") == 0;      // histories from MC_MapperGen, with its parameters
    if (gen) {pf = kind == "genp"; depth = glimit = optlimit = 1; gsize = 20; enable = true;}
    if (pf) {enable = r.coin();}
    mapfile = gen ? (kind == "gen" ? "" : "fileA") : r.coin(loc || pf ? 0.7 : loop ? 0.1 : 0.2) ? one({"fileA", "fileB"}) : "";
    g_score_lo = -1; g_score_hi = loop ? -0.2 : 0; g_score_odd = r.coin(0.3) ? 0.1 : 0;
    mount = Pose2d(r.u(-0.3, 0.3), r.u(-0.3, 0.3), r.coin(0.3) ? 0 : r.u(-3.1, 3.1));
    inverted = r.coin(0.35);
    odom = Pose2d(r.u(-1, 1), r.u(-1, 1), r.u(-3.1, 3.1));
    if (r.coin(0.3)) {odom = Pose2d();}
    auto & p = simros::world().params;
    p["resolution"] = g_res; p["occupancy_threshold"] = g_thresh;
    p["minimum_travel_distance"] = mintrav; p["minimum_travel_rotation"] = minrot;
    p["rolling_depth"] = depth; p["use_barycenter"] = bary; p["global_search_size"] = gsize; p["global_search_limit"] = glimit;
    p["optimization_node_limit"] = optlimit; p["use_particle_filter"] = pf; p["enable_mapping"] = enable;
    p["scan_matcher_type"] = std::string("sim::Matcher"); p["max_range"] = rmax; p["map_file"] = mapfile;
    double zero = 0;
    if (pf) {
      for (auto k : {"odom_alpha1", "odom_alpha2", "odom_alpha3", "odom_alpha4", "odom_alpha5"}) {p[k] = zero;}
      p["min_particles"] = 12; p["max_particles"] = 40; p["kld_err"] = 0.1;
    }
    race::p_mem = one({0.0, 0.002, 0.02, 0.05, 0.1});
    sched::p_switch = one({0.02, 0.1, 0.3}); sched::p_wake = one({0.02, 0.1, 0.3});
    if (gen && r.coin(0.6)) {sched::p_switch = 0.005;}
    else if (r.coin(0.4)) {
      sched::p_switch = 0;
      for (int i = 0, n = 2 + r.below(8); i < n; ++i) {sched::changes.push_back(r.below(900));}
    }
    put(Ev("new").t("kind", kind).r("mintrav", mintrav).r("minrot", minrot).i("depth", depth).b("bary", bary).r("gsize", gsize).i("glimit", glimit)
      .i("optlimit", optlimit).b("pf", pf).b("enable", enable).r("rmax", rmax).t("mapfile", mapfile).raw("mount", jpose(mount)).b("inv", inverted)
      .i("minp", 12).i("maxp", 40).r("res", g_res).r("thresh", g_thresh));
  }
  // ---- inputs
  void input(const char * e, const std::function<void(Ev &)> & say, const std::function<void()> & call)
  {
    poll();
    Ev x = ev(e);
    int k = ++inputs;
    x.i("k", k);
    say(x);
    put(x);
    try {--race::hush; call(); ++race::hush;} catch (const std::exception & ex) {++race::hush; put(ev("threw").t("what", "an exception left a callback"));}
    poll();
    put(ev("ret").i("k", k));
    sched::point("idle");
  }
  void scan(char how)
  {
    // where the robot went
    double d = how == 's' ? r.u(0, mintrav * 0.7) : mintrav * r.u(1.1, 4), dir = r.u(-3.14, 3.14);
    double turn = how == 's' ? r.u(-minrot, minrot) * 0.45 : r.u(-1, 1);
    if (how == 'T') {d = r.u(0, mintrav * 0.5); turn = r.u(1.2, 2.9) * minrot * (r.coin() ? 1 : -1); if (std::fabs(turn) > 3.0) {turn = 2.5;}}
    if (how == 's' && r.coin(0.3)) {double k = std::pow(10.0, r.u(-3, -1)); d *= k; turn *= k;}     // creeps
    if (how == '=') {d = 0; turn = 0;}
    // stay in the neighbourhood
    if (how != 's' && std::hypot(odom.x - home.x, odom.y - home.y) > 1.0) {dir = std::atan2(home.y - odom.y, home.x - odom.x);}
    start = Pose2d(odom.x + d * std::cos(dir), odom.y + d * std::sin(dir), wrap(odom.theta + turn));
    size_t n = 2 + r.below(4);
    if (r.coin(0.05)) {n = r.below(2);}
    auto m = std::make_shared<sensor_msgs::msg::LaserScan>();
    bool moving = r.coin(0.6);
    m->time_increment = moving ? 0.01f : 0.0f;
    if (r.coin(0.5)) {m->scan_time = n * m->time_increment + r.u(0, 0.1);}      // sensors rest between scans
    m->angle_min = r.u(-3, 1); m->angle_increment = r.u(0.1, 0.8); m->range_min = 0.1; m->range_max = sensor_max;
    if (r.coin(0.2)) {m->angle_increment = -m->angle_increment;}
    m->angle_max = m->angle_min + m->angle_increment * n;
    for (size_t i = 0; i < n; ++i) {
      double v = r.u(0.2, 1.6);
      if (r.coin(0.12)) {int k = r.below(3); v = k == 0 ? NAN : k == 1 ? INFINITY : sensor_max * 1.5;}
      m->ranges.push_back(v);
    }
    if (r.coin(0.08)) {for (auto & v : m->ranges) {v = NAN;}}
    clock += 100000000;
    t0 = clock;
    t1 = t0 + int64_t(double(n ? n - 1 : 0) * double(m->time_increment) * 1e9);
    endp = start;
    if (t1 > t0) {endp = Pose2d(start.x + r.u(-0.1, 0.1), start.y + r.u(-0.1, 0.1), wrap(start.theta + r.u(-0.2, 0.2)));}
    have_start = how != 'x'; have_end = how != 'y' || t1 == t0; have_laser = how != 'z'; have_now = true;
    if (t1 == t0) {have_end = have_start;}
    m->header.stamp = rclcpp::Time(t0);
    m->header.frame_id = "laser";
    Pose2d old = odom;
    input("in_scan", [&](Ev & e) {
        e.raw("so", have_start ? "[" + jpose(start) + "]" : "[]").raw("eo", have_end ? "[" + jpose(endp) + "]" : "[]").b("laser", have_laser)
        .r("amin", m->angle_min).r("ainc", m->angle_increment).r("smax", m->range_max)
        .raw("ranges", jarr(m->ranges, [](float v) {return num(v);}));
      }, [&] {
        std::any_cast<std::function<void(sensor_msgs::msg::LaserScan::ConstSharedPtr)> &>(simros::world().subscriptions.at("scan"))(m);
      });
    odom = endp;
    if (how == 'x' || how == 'y' || how == 'z') {odom = old;}
  }
  Pose2d home;
  void pose(char how)
  {
    auto m = std::make_shared<geometry_msgs::msg::PoseWithCovarianceStamped>();
    m->header.frame_id = how == 'Q' ? "odom" : "map";
    Pose2d p(r.u(-2, 2), r.u(-2, 2), r.u(-3.1, 3.1));
    Snap * s = nullptr;
    for (auto & g : graphs) {if (g.first) {s = &g.second;}}
    if (s && !s->pose.empty()) {
      auto & q = s->pose[r.below(s->pose.size())];
      double a = r.u(-3.1, 3.1), d = how == 'F' ? r.u(8.5, 18) : how == 'N' ? r.u(4, 10.5) : r.u(0, 1.5);
      p = Pose2d(q.x + d * std::cos(a), q.y + d * std::sin(a), p.theta);
    }
    m->pose.pose.position.x = p.x; m->pose.pose.position.y = p.y;
    m->pose.pose.orientation.z = std::sin(p.theta / 2); m->pose.pose.orientation.w = std::cos(p.theta / 2);
    double cx = r.u(0.01, 0.3), cy = r.u(0.01, 0.3), ct = r.u(0.01, 0.2);
    if (pf && r.coin(0.5)) {cx = cy = ct = 0;}
    m->pose.covariance[0] = cx; m->pose.covariance[7] = cy; m->pose.covariance[35] = ct;
    have_now = how != 'O';
    if (r.coin(0.3)) {odom = Pose2d(odom.x + r.u(-0.5, 0.5), odom.y + r.u(-0.5, 0.5), wrap(odom.theta + r.u(-1, 1)));}
    input("in_pose", [&](Ev & e) {
        e.t("frame", m->header.frame_id).raw("p", jpose(p)).raw("cov", "[" + num(cx) + "," + num(cy) + "," + num(ct) + "]")
        .raw("odom", have_now ? "[" + jpose(odom) + "]" : "[]");
      }, [&] {
        std::any_cast<std::function<void(geometry_msgs::msg::PoseWithCovarianceStamped::ConstSharedPtr)> &>(simros::world().subscriptions.at("initialpose"))(m);
      });
    have_now = true;
    home = odom;
  }
  std::vector<std::string> saved;
  void configure(int action, const std::string & file)
  {
    auto rq = std::make_shared<ndt_2d::srv::Configure::Request>();
    auto rs = std::make_shared<ndt_2d::srv::Configure::Response>();
    using Asked = ndt_2d::srv::Configure::Request;
    rq->action = (action & 1 ? int(Asked::ENABLE_MAPPING) : 0) | (action & 2 ? int(Asked::DISABLE_MAPPING) : 0) |
      (action & 4 ? int(Asked::LOAD_FROM_FILE) : 0) | (action & 8 ? int(Asked::SAVE_TO_FILE) : 0);
    rq->filename = file;
    bool can = !simros::disk().fail_open_write;
    bool is = simros::disk().files.count(file) > 0;
    input("in_cfg", [&](Ev & e) {
        e.b("enable", action & 1).b("disable", action & 2).b("load", action & 4).b("save", action & 8).t("file", file).b("exists", is).b("broken", file == "fileX").b("writable", can);
      }, [&] {
        std::any_cast<std::function<void(std::shared_ptr<ndt_2d::srv::Configure::Request>, std::shared_ptr<ndt_2d::srv::Configure::Response>)> &>(
          simros::world().services.at("configure"))(rq, rs);
      });
    if ((action & 8) && can && !is) {
      Quiet q;
      ++own;
      if (simros::disk().files.count(file)) {
        Graph g(bary, file);
        put(ev("saved").t("f", file).b("written", true).raw("scans", contents(g).substr(8)));
        saved.push_back(file);
      } else {put(ev("saved").t("f", file).b("written", false).raw("scans", "[],\"cons\":[]"));}
      --own;
    }
  }
  sched::Th * byRole(char role)
  {
    sched::Th * f = nullptr;
    for (auto t : sched::threads) {if (t->id && t->st != sched::DONE && shm->role[t->id] == role) {return t;}}
    // not known yet: the publisher naps less
    for (auto t : sched::threads) {
      if (!t->id || t->st == sched::DONE || shm->role[t->id]) {continue;}
      if (!f || (role == 'p' ? t->nap < f->nap : t->nap > f->nap)) {f = t;}
    }
    return f;
  }
  void settle(int rounds)
  {
    for (int i = 0; i < 30; ++i) {
      size_t was = shm->used, gs = 0;
      auto count = [&] {
          size_t n = 0;
          for (const char * p = shm->buf + was, * e = shm->buf + shm->used; p < e; ) {
            if (!strncmp(p, "{\"e\":\"g\"", 8) || !strncmp(p, "{\"e\":\"opt\"", 10) || !strncmp(p, "{\"e\":\"m_", 8)) {++n;}
            p = static_cast<const char *>(memchr(p, '\n', e - p)) + 1;
          }
          return n;
        };
      for (int k = 0; k < rounds; ++k) {
        for (auto t : std::vector<sched::Th *>(sched::threads)) {
          if (t->id && t->st != sched::DONE) {sched::round(t);}
        }
      }
      gs = count();
      if (!gs) {put(ev("quiet")); return;}
    }
    put(ev("restless"));
  }
  void word(const std::string & w)
  {
    char c = w[0];
    int k = w.size() > 1 ? atoi(w.c_str() + 1) : 0;
    switch (c) {
      case 'S': case 's': case 'T': case 'x': case 'y': case 'z': case '=': scan(c); break;
      case 'P': case 'Q': case 'F': case 'O': case 'N': pose(c); break;
      case 'E': configure(1, ""); break;
      case 'D': configure(2, ""); break;
      case 'L': configure(4, !saved.empty() && r.coin() ? saved[r.below(saved.size())] : one({"fileA", "fileB", "fileA", "fileC"})); break;
      case 'A': configure(4, "fileA"); break;
      case 'B': configure(4, one({"nofile", "fileX"})); break;
      case 'V': configure(8, "save" + std::to_string(++saves)); break;
      case 'W': {
          if (r.coin()) {configure(8, one({"fileA", "fileB"}));}
          else {simros::disk().fail_open_write = true; configure(8, "save" + std::to_string(++saves)); simros::disk().fail_open_write = false;}
          break;
        }
      case 'X': configure(2 | (r.coin() ? 8 : 4), r.coin() ? "save" + std::to_string(++saves) : one({"fileA", "fileB"})); break;
      case 'Y':
          if (r.below(4)) {configure(1 | 4, one({"fileA", "fileB"}));}
          else {configure(1 | 8, "save" + std::to_string(++saves));}
          break;
      case 'p': {auto t = byRole('p'); if (t) {sched::round(t);} break;}
      case 'c': {auto t = byRole('l'); if (t) {sched::round(t);} break;}
      case 'm': {auto t = byRole('l'); g_stop_at_match = t; if (t) {sched::round(t);} g_stop_at_match = nullptr; break;}
      case 'h': {auto t = byRole(r.coin() ? 'l' : 'p'); if (t) {sched::round(t, 1, k ? k : 1 + r.below(14));} break;}
      case 'l': {auto t = byRole('l'); if (t) {sched::round(t, 1, 1000000, true);} break;}
      case 'k': {auto t = byRole('p'); if (t) {sched::round(t, 1, 1000000, true);} break;}
      case 'q': settle(3); break;
      case '!': stopped = true; break;
      case '.': for (int i = 0; i < (k ? k : 5); ++i) {sched::point("idle");} break;
      default: break;
    }
  }
  std::vector<std::string> script()
  {
    std::vector<std::string> v;
    auto add = [&](const char * alphabet, int n) {
        int len = strlen(alphabet);
        for (int i = 0; i < n; ++i) {v.push_back(std::string(1, alphabet[r.below(len)]));}
      };
    if (kind == "loop") {
      if (!mapfile.empty() || !enable) {v = {"E", "P"};}
      add("SSSSSSSSSSSsTmchp.V", 14 + r.below(16));
      if (r.coin(0.4)) {add("DLmEPh", 1 + r.below(3)); add("SSSEPcmh.", 6);}
    } else if (kind == "cfg") {
      if (r.coin(0.7)) {add("SSS", 2 + r.below(6));}
      add("SSSSSSTsPPPQFNOEEDDLLBVWXYxyz.pcmhhq=", 10 + r.below(20));
    } else if (kind == "loc") {
      v.push_back(one({"D", "S", "L", "s"}));
      add("PPNF", 1 + r.below(2));
      add("SSSSSSSsTPPNDLEVBxyzpcmh.q=", 8 + r.below(14));
    } else {
      add("SPPL", 1);
      v.push_back("P");
      add("SSSSSsTPPQODELBVxyzpch.q=", 6 + r.below(10));
    }
    if (!r.coin(0.25)) {v.push_back("q");}
    return v;
  }
  void run(const std::vector<std::string> & given)
  {
    auto & w = simros::world();
    g_rng = &dr; g_seed = &dr;
    w.ok = [this] {sched::point("ok"); return alive;};
    w.now_ns = [this] {sched::point("now"); return clock += 1000000;};
    w.on_publish = [this](const std::string & t, const std::any & m) {publish(t, m);};
    w.on_tf = [this](const std::any & m) {sendTf(m);};
    w.tf = [this](const std::string & a, const std::string & b, int64_t t, double * v) {return tf(a, b, t, v);};
    setup();
    files();
    sched::on_point = [](const char *) {poll();};
    sched::on_state = [](sched::Th * t, const char * s) {shm->nap[t->id] = t->nap; put(ev(s));};
    sched::on_fatal = [](const char * s) {put(ev(s)); _exit(0);};
    race::begin(g_race);
    ++race::hush;
    sched::begin(sr);
    --race::hush;
    node = std::make_shared<ndt_2d::Mapper>(rclcpp::NodeOptions());
    ++race::hush;
    poll();
    node_at = reinterpret_cast<const char *>(node.get());
    sched::deep = shm->nseen >= 20 && shm->nlock == 1;
    put(ev("up"));
    home = odom;
    auto words = given.empty() ? script() : given;
    if (!given.empty()) {words.push_back("q");}
    for (auto & x : words) {word(x); if (stopped) {break;}}
    poll();
    put(ev("stop"));
    alive = false;
    pollable = false;
    --race::hush;
    node.reset();
    ++race::hush;
    put(ev("down"));
    _exit(0);
  }
};

int main(int argc, char ** argv)
{
  int per = personality(0xffffffff);
  if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) >= 0 && (personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    execv("/proc/self/exe", argv);
  }
  Args a(argc, argv);
  Log log(a.s("out").c_str());
  long n = a.i("n", 20), part = a.i("part", 0), parts = a.i("parts", 1), from = a.i("from", 0);
  uint64_t seed = a.i("seed", 1);
  auto hs = a.s("in").empty() ? std::vector<std::vector<std::string>>() : histories(a.s("in").c_str());
  auto mem = mmap(nullptr, kShm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shm = static_cast<Shm *>(mem);
  g_race = a.i("race", 0);
  race::prepare();
  const char * kinds[] = {"loop", "cfg", "loop", "loc", "cfg", "pf"};
  std::string want = a.s("kind"), skip = a.s("skip");
  std::vector<std::pair<std::string, std::vector<std::string>>> jobs;
  for (size_t i = 0; i < hs.size(); ++i) {
    if (long(i % parts) == part) {auto h = hs[i]; std::string k = h[0]; h.erase(h.begin()); jobs.emplace_back(k, h);}
  }
  for (long i = 0; i < n; ++i) {
    std::string k = kinds[i % 6];
    if (!want.empty()) {std::vector<std::string> ks; std::stringstream ss(want); std::string x; while (std::getline(ss, x, ',')) {ks.push_back(x);} k = ks[i % ks.size()];}
    jobs.emplace_back(k, std::vector<std::string>());
  }
  for (size_t i = from; i < jobs.size(); ++i) {
    shm->used = 0;
    memset(shm->role, 0, sizeof shm->role);
    memset(shm->nap, 0, sizeof shm->nap);
    fflush(log.f);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(40);
      Sim s(seed * 1000003 + i * 7919 + 17, jobs[i].first);
      s.run(jobs[i].second);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string t(shm->buf, shm->used);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {t += "{\"e\":\"hang\",\"th\":\"?\"}\n";}
    else if (WIFSIGNALED(st)) {t += "{\"e\":\"crash\",\"th\":\"?\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}\n";}
    else if (WEXITSTATUS(st)) {
      if (WEXITSTATUS(st) == 4) {fprintf(stderr, "log full\n"); return 5;}
      t += "{\"e\":\"crash\",\"th\":\"?\",\"sig\":" + std::to_string(1000 + WEXITSTATUS(st)) + "}\n";
    }
    // name the threads
    std::string name[64];
    name[0] = "main";
    for (int k = 1; k < 64; ++k) {name[k] = shm->role[k] == 'p' ? "pub" : shm->role[k] == 'l' ? "lc" : "";}
    bool havep = false, havel = false;
    for (int k = 1; k < 64; ++k) {havep = havep || name[k] == "pub"; havel = havel || name[k] == "lc";}
    for (int pass = 0; pass < 2; ++pass) {
      for (int k = 1; k < 64; ++k) {
        if (!name[k].empty() || !shm->nap[k]) {continue;}
        bool alone = true, shortest = true;
        for (int j = 1; j < 64; ++j) {
          if (j == k || !shm->nap[j]) {continue;}
          alone = false;
          if (shm->nap[j] <= shm->nap[k]) {shortest = false;}
        }
        if (alone) {continue;}                     // nobody knows which one it is
        if (pass == 0 && shortest && !havep) {name[k] = "pub"; havep = true;}
        else if (pass == 1) {name[k] = !havel ? "lc" : !havep ? "pub" : "other"; (!havel ? havel : havep) = true;}
      }
    }
    std::string o;
    o.reserve(t.size());
    for (size_t p = 0; p < t.size(); ) {
      if (t[p] == '@') {
        size_t e = t.find('@', p + 1);
        int k = atoi(t.c_str() + p + 1);
        o += name[k].empty() ? "other" : name[k];
        p = e + 1;
      } else {o += t[p++];}
    }
    if (g_race) {o = race::events(name);}
    fwrite(o.data(), 1, o.size(), log.f);
  }
  return 0;
}
