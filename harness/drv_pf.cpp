// The particle filter and the motion model.  mode=filter|prop|init|motion out= seed= n=
#include <ndt_2d/motion_model.hpp>
#include <ndt_2d/particle_filter.hpp>
#include <functional>
#include <map>
#include "log.hpp"
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::ScanPtr;
static Rng * g_seed;
// reproducible draws (libstdc++'s entry point for std::random_device)
extern "C" unsigned int _ZNSt13random_device9_M_getvalEv(void *) {return static_cast<unsigned int>(g_seed->next());}

struct Scripted : ndt_2d::ScanMatcher
{
  std::function<double(double, double, double)> f;
  std::vector<Point> want;
  mutable bool ok = true;
  void initialize(const std::string &, rclcpp::Node *, double) override {}
  void addScans(const std::vector<ScanPtr>::const_iterator &, const std::vector<ScanPtr>::const_iterator &) override {}
  double matchScan(const ScanPtr &, Pose2d &, Eigen::Matrix3d &) const override {return 0;}
  double scoreScan(const ScanPtr & s) const override {return scorePoints(s->getPoints(), s->getPose());}
  double scorePoints(const std::vector<Point> & p, const Pose2d & pose) const override
  {
    ok = ok && p.size() == want.size();
    for (size_t i = 0; ok && i < p.size(); ++i) {ok = p[i].x == want[i].x && p[i].y == want[i].y;}
    return f(pose.x, pose.y, pose.theta);
  }
  void reset() override {}
};
using Cloud = std::vector<std::array<double, 4>>;
static Cloud cloud(ndt_2d::ParticleFilter & f)
{
  geometry_msgs::msg::PoseArray m;
  f.getMsg(m);
  Cloud c;
  for (auto & p : m.poses) {c.push_back({p.position.x, p.position.y, p.orientation.z, p.orientation.w});}
  return c;
}
static std::string jc(const Cloud & c)
{
  return jarr(c, [](const std::array<double, 4> & p) {return jarr(p, [](double x) {return num(x);});});
}
static void state(Ev & e, ndt_2d::ParticleFilter & f)
{
  auto m = f.getMean();
  e.raw("parts", jc(cloud(f))).raw("mean", "[" + num(m(0)) + "," + num(m(1)) + "," + num(m(2)) + "]").raw("cov", jmat(f.getCovariance()));
}
static double th(const std::array<double, 4> & p) {return 2 * atan2(p[2], p[3]);}

struct Sim
{
  Rng & r;
  std::unique_ptr<ndt_2d::ParticleFilter> f;
  std::shared_ptr<Scripted> m = std::make_shared<Scripted>();
  ndt_2d::ScanMatcherPtr mp = m;
  size_t lo, hi;
  double far;
  Sim(Rng & r, size_t lo, size_t hi, double noise, double far) : r(r), lo(lo), hi(hi), far(far)
  {
    ndt_2d::MotionModelPtr mm = std::make_shared<ndt_2d::MotionModel>(noise, noise, noise, noise, noise);
    f = std::make_unique<ndt_2d::ParticleFilter>(lo, hi, mm);
  }
  void spread(Log & log, double sx, double sy, double st, double theta)
  {
    double x = r.u(-far, far), y = r.u(-far, far);
    f->init(x, y, theta, sx, sy, st);
    Ev e("spread");
    e.raw("p", jxyt(x, y, theta)).raw("s", jxyt(sx, sy, st));
    state(e, *f);
    log(e);
  }
  std::vector<double> measure(Log & log, int kind)
  {
    double a = r.u(-3, 3), b = r.u(-3, 3), c = r.u(-2, 2), d = r.u(0, 6), cut = r.u(-1, 0.8), scale = r.coin(0.2) ? 1e-9 : (r.coin(0.2) ? 1e6 : 1);
    double sign = r.coin(0.8) ? -1 : 1;
    m->f = [=](double x, double y, double t) {
        if (kind == 1) {return 0.0;}
        double v = std::sin(a * x + b * y + d) + std::cos(t + c) * 0.5 - cut;
        if (kind == 2) {v = v * v + 1e-3;}
        return sign * scale * std::max(0.0, v);
      };
    m->want.clear();
    for (int i = r.below(5); i > 0; --i) {m->want.push_back(Point(r.u(-5, 5), r.u(-5, 5)));}
    m->ok = true;
    auto scan = std::make_shared<ndt_2d::Scan>(r.below(100));
    scan->setPose(Pose2d(r.u(-50, 50), r.u(-50, 50), r.u(-3, 3)));
    scan->setPoints(m->want);
    auto before = cloud(*f);
    f->measure(mp, scan);
    std::vector<double> s;
    for (auto & p : before) {s.push_back(m->f(p[0], p[1], th(p)));}
    Ev e("measure");
    e.raw("scores", jarr(s, [](double x) {return num(x);})).b("ptsok", m->ok);
    state(e, *f);
    log(e);
    return s;
  }
  void move(Log & log)
  {
    f->update(r.u(-1, 1), r.u(-0.3, 0.3), r.u(-1, 1));
    Ev e("move"); state(e, *f); log(e);
  }
  void resample(Log & log, double err, double z)
  {
    f->resample(err, z);
    Ev e("resample"); e.r("err", err).r("z", z); state(e, *f); log(e);
  }
};

int main(int argc, char ** argv)
{
  Args a(argc, argv);
  Log log(a.s("out").c_str());
  Rng r(a.i("seed", 1)), seeds(a.i("seed", 1) + 777777);
  g_seed = &seeds;
  std::string mode = a.s("mode");
  long n = a.i("n", 10);
  if (mode == "filter") {
    for (long k = 0; k < n; ++k) {
      static const int L[][2] = {{1, 1}, {1, 30}, {5, 5}, {10, 50}, {2, 150}, {40, 200}, {20, 20}, {7, 400}, {3, 90}};
      auto & q = L[r.below(9)];
      Sim s(r, q[0], q[1], r.coin(0.2) ? 0 : r.u(0.01, 0.5), k % 6 == 5 ? 2000 : 8);
      Ev e("new"); e.i("min", q[0]).i("max", q[1]); state(e, *s.f); log(e);
      int len = 3 + r.below(12);
      for (int i = 0; i < len; ++i) {
        switch (r.below(7)) {
          case 0:
            s.spread(log, r.coin(0.2) ? 0 : r.u(0.01, 3), r.u(0.01, 3), r.coin(0.3) ? 0.05 : r.u(0.01, 2), r.coin(0.4) ? (r.coin() ? 3.1 : -3.13) : r.u(-3.14, 3.14));
            break;
          case 1: s.move(log); break;
          case 2: case 3: s.measure(log, r.coin(0.15) ? 1 : (r.coin(0.3) ? 2 : 0)); break;
          default: s.resample(log, r.coin() ? r.u(0.005, 0.1) : r.u(0.1, 0.6), r.u(0.3, 3)); break;
        }
      }
    }
  } else if (mode == "prop") {
    for (long k = 0; k < n; ++k) {
      int lo = 2 + r.below(7), hi = 15000;
      Sim s(r, lo, hi, 0.3, 5);
      Ev e("new"); e.i("min", lo).i("max", hi); state(e, *s.f); log(e);
      s.spread(log, 1, 1, 1, 0.3);
      auto before = cloud(*s.f);
      auto w = s.measure(log, k % 3 == 1 ? 2 : 0);
      bool any = false;
      for (double x : w) {any = any || x != 0;}
      if (!any) {continue;}
      s.f->resample(1e-7, 2.0);
      auto after = cloud(*s.f);
      std::vector<long> cnt(before.size());
      long rep = 0;
      for (size_t i = 0; i < after.size(); ++i) {
        for (size_t j = 0; j < before.size(); ++j) {
          if (after[i] == before[j]) {++cnt[j]; break;}
        }
        if (i && after[i] == after[i - 1]) {++rep;}
      }
      Ev p("proportion");
      p.raw("scores", jarr(w, [](double x) {return num(x);})).i("n", after.size()).raw("counts", jarr(cnt, [](long c) {return std::to_string(c);})).i("repeats", rep);
      log(p);
    }
  } else if (mode == "init") {
    for (long k = 0; k < n; ++k) {
      int lo = k % 4 == 3 ? 50 : 4000;
      Sim s(r, lo, lo * 2, 0.1, 20);
      Ev e("new"); e.i("min", lo).i("max", lo * 2); state(e, *s.f); log(e);
      int m = 1 + r.below(3);
      for (int i = 0; i < m; ++i) {
        auto sd = [&] {return r.coin(0.15) ? 0.0 : (r.coin() ? r.u(0.01, 0.3) : r.u(0.3, 4));};
        double st = r.coin(0.2) ? 0.0 : r.u(0.01, 0.4);
        // what came before must not matter
        if (i == 0 ? r.coin(0.2) : r.coin(0.8)) {s.measure(log, r.coin(0.7) ? 2 : 0);}
        if (i && r.coin(0.15)) {s.move(log);}
        s.spread(log, sd(), sd(), k % 4 == 3 ? 2.0 : st, r.coin(0.4) ? (r.coin() ? 3.1 : -3.13) : r.u(-3.14, 3.14));
      }
    }
  } else {
    for (long k = 0; k < n; ++k) {
      bool exact = k % 3 != 0;
      double aa[5] = {0, 0, 0, 0, 0};
      if (!exact) {
        if (k % 2) {aa[r.below(4)] = r.u(0.001, 0.012);} else {for (double & x : aa) {x = r.u(0.001, 0.006);}}
      }
      aa[4] = r.u(0, 1);
      ndt_2d::MotionModel mm(aa[0], aa[1], aa[2], aa[3], aa[4]);
      double len = exact ? (r.coin(0.2) ? r.u(0, 0.0099) : (r.coin(0.3) ? (r.coin() ? r.u(0.0101, 0.02) : r.u(0.0101, 0.1)) : r.coin(0.2) ? r.u(5, 60) : r.u(0.0101, 2))) : r.u(0.6, 2), dir, turn;
      if (exact && r.coin(0.1)) {len = 0;}
      switch (r.below(6)) {
        case 0: dir = 0; break;
        case 1: dir = M_PI; break;
        case 2: dir = M_PI - 0.2 + 0.4 * r.u(); break;
        case 3: dir = r.coin() ? M_PI / 2 : -M_PI / 2; break;
        default: dir = r.u(-M_PI, M_PI);
      }
      switch (r.below(4)) {
        case 0: turn = 0; break;
        case 1: turn = r.u(-3.1, 3.1); break;
        default: turn = r.u(-0.6, 0.6);
      }
      if (!exact && r.coin(0.2)) {len = 0; turn = r.coin() ? r.u(0.3, 1.4) : -r.u(0.3, 1.4);}
      double dx = len * cos(dir), dy = len * sin(dir);
      std::vector<Eigen::Vector3d> v;
      for (int i = exact ? 20 : 4000; i > 0; --i) {v.push_back(Eigen::Vector3d(r.u(-10, 10), r.u(-10, 10), r.coin(0.1) ? M_PI : r.u(-3.14159, 3.14159)));}
      if (exact && r.coin(0.3)) {for (auto & p : v) {p(2) += 2 * M_PI * (static_cast<int>(r.below(5)) - 2);}}   // however the headings were given
      if (exact && len == 0 && r.coin()) {turn = 0;}
      auto js = [&] {return jarr(v, [](const Eigen::Vector3d & p) {return jxyt(p(0), p(1), p(2));});};
      Ev e("move");
      e.raw("d", jxyt(dx, dy, turn)).raw("a", jarr(aa, [](double x) {return num(x);})).raw("before", js());
      mm.sample(dx, dy, turn, v);
      e.raw("after", js());
      log(e);
    }
  }
}
