// Executions of ScanMatcherNDT.  out= seed= n=<matchers> heavy=<0|1: with matches>
#include <ndt_2d/scan_matcher_ndt.hpp>
#include <simros/world.cpp.inc>
#include "log.hpp"
using namespace ndt_2d;
static std::string jpts(const std::vector<Point> & v) {return jarr(v, [](const Point & p) {return jxy(p.x, p.y);});}
static std::string jp(const Pose2d & p) {return jxyt(p.x, p.y, p.theta);}
struct World
{
  Rng & r;
  std::vector<std::pair<Point, Point>> walls;
  double range;
  std::vector<Point> marks;   // landmarks that are seen exactly
  Point trace(const Pose2d & p, double a)
  {
    double best = range * 0.95, c = cos(p.theta + a), s = sin(p.theta + a);
    for (auto & w : walls) {
      double ex = w.second.x - w.first.x, ey = w.second.y - w.first.y;
      double den = c * ey - s * ex;
      if (std::fabs(den) < 1e-9) {continue;}
      double wx = w.first.x - p.x, wy = w.first.y - p.y;
      double t = (wx * ey - wy * ex) / den, u = (wx * s - wy * c) / den;
      if (t > 0.05 && t < best && u >= 0 && u <= 1) {best = t;}
    }
    double d = best + 0.01 * r.u(-1, 1);
    return Point(d * cos(a), d * sin(a));
  }
  std::vector<Point> scan(const Pose2d & p, int n)
  {
    std::vector<Point> v;
    if (!marks.empty()) {
      // with n < 0 only the centres
      for (auto & m : marks) {
        for (int i = 0; i < (n < 0 ? 1 : 6); ++i) {
          double dx = m.x - p.x, dy = m.y - p.y, q = n < 0 ? 0 : 0.02, a = i * M_PI / 3, b = p.theta;
          dx += q * cos(a); dy += q * 0.5 * sin(a);
          v.push_back(Point(cos(b) * dx + sin(b) * dy, -sin(b) * dx + cos(b) * dy));
        }
      }
      return v;
    }
    for (int i = 0; i < n; ++i) {v.push_back(trace(p, -2.0 + 4.0 * (i + r.u(0, .5)) / n));}
    return v;
  }
};
static bool unchanged(const ScanPtr & s, size_t id, const Pose2d & p, const std::vector<Point> & v)
{
  auto q = s->getPose();
  auto w = s->getPoints();
  bool ok = s->getId() == id && q.x == p.x && q.y == p.y && q.theta == p.theta && v.size() == w.size();
  for (size_t i = 0; ok && i < v.size(); ++i) {ok = v[i].x == w[i].x && v[i].y == w[i].y;}
  return ok;
}
int main(int argc, char ** argv)
{
  Args a(argc, argv);
  Log log(a.s("out").c_str());
  Rng r(a.i("seed", 1));
  const int n = a.i("n", 20);
  const int matches = a.i("matches", 3);
  for (int k = 0; k < n; ++k) {
    double res = k % 3 == 0 ? 0.25 : (k % 3 == 1 ? 0.5 : 0.37);
    double range = k % 4 == 0 ? 3.0 : 5.0 + r.u(0, 3);
    // the last ones are so fine that neighbours score almost the same
    const double asz[] = {0.125, 0.0625, 0.1, 0.004}, ars[] = {0.0625, 0.03125, 0.045, 0.0021};
    const double lsz[] = {0.125, 0.0625, 0.2, 0.01}, lrs[] = {0.0625, 0.03125, 0.083, 0.0021};
    const bool fine = k % 5 == 3;
    int ia = fine ? 3 : r.below(3), il = fine ? 3 : r.below(3);
    int beams = 1 + r.below(k % 5 == 0 ? 100 : (fine ? 12 : 24));
    if (k % 17 == 5) {beams = 0;}
    auto & prm = simros::world().params;
    prm.clear();
    std::string name = "m";
    prm[name + ".ndt_resolution"] = res;
    prm[name + ".search_angular_size"] = asz[ia];
    prm[name + ".search_angular_resolution"] = ars[ia];
    prm[name + ".search_linear_size"] = lsz[il];
    prm[name + ".search_linear_resolution"] = lrs[il];
    prm[name + ".laser_max_beams"] = beams;
    log(Ev("new").r("res", res).r("range", range).r("asize", asz[ia]).r("ares", ars[ia]).r("lsize", lsz[il]).r("lres", lrs[il]).i("beams", beams));
    rclcpp::Node node("n");
    ScanMatcherNDT m;
    m.initialize(name, &node, range);
    World w{r, {}, range, {}};
    double far = k % 12 == 7 ? -40000.0 : (k % 6 == 2 ? -100.0 : 0.0);
    double cx = far + r.u(-3, 3), cy = far + r.u(-3, 3);
    double sz = range * r.u(0.5, 0.9) + (k % 3 == 1 ? 5.0 : 0.0);
    Point c[4] = {Point(cx - sz, cy - sz * .7), Point(cx + sz, cy - sz * .7), Point(cx + sz, cy + sz * .7), Point(cx - sz, cy + sz * .7)};
    for (int i = 0; i < 4; ++i) {w.walls.emplace_back(c[i], c[(i + 1) % 4]);}
    for (int i = 0; i < 2; ++i) {
      Point p(cx + r.u(-.6, .6) * sz, cy + r.u(-.6, .6) * sz), q(cx + r.u(-.6, .6) * sz, cy + r.u(-.6, .6) * sz);
      w.walls.emplace_back(p, q);
    }
    const bool marks = k % 7 == 4;
    if (marks) {
      for (int i = 0; i < 12; ++i) {w.marks.push_back(Point(cx + r.u(-.3, .3) * range, cy + r.u(-.3, .3) * range));}
    }
    auto place = [&](double spread) {
        return Pose2d(cx + r.u(-spread, spread), cy + r.u(-spread, spread), r.u(-7, 7));
      };
    // floating point must not decide which beam is used
    auto count = [&](int lo, int hi) {
        for (;;) {
          int m2 = lo + r.below(hi - lo + 1), u = std::min(beams, m2);
          bool ok = true;
          for (int i = 0; i < u; ++i) {ok = ok && static_cast<int>(i * (static_cast<double>(m2) / u)) == i * m2 / u;}
          if (ok) {return m2;}
        }
      };
    auto mk = [&](const Pose2d & p, const std::vector<Point> & v) {
        auto s = std::make_shared<Scan>(r.below(100));
        s->setPose(p); s->setPoints(v);
        return s;
      };
    int steps = 4 + r.below(5);
    for (int st = 0; st < steps; ++st) {
      int op = st == 0 ? (r.below(6) ? 0 : 5) : r.below(10);
      if (op == 4 && r.coin()) {op = 5;}
      if (op < 4) {
        int ns = op == 3 && st > 0 ? 0 : 1 + r.below(3);
        std::vector<ScanPtr> all, added;
        std::vector<std::pair<Pose2d, std::vector<Point>>> copy;
        std::string j = "[";
        auto p0 = place(1.0);
        for (int i = 0; i < ns; ++i) {
          double sp = k % 3 == 1 ? 5.0 : 0.5;
          Pose2d p(p0.x + r.u(-sp, sp), p0.y + r.u(-sp, sp), r.u(-4, 4));
          auto v = w.scan(p, (r.coin() ? 30 : 300) + r.below(60));
          if (r.below(10) == 0) {v.clear();}
          added.push_back(mk(p, v));
          copy.emplace_back(p, v);
          j += std::string(i ? "," : "") + "{\"pose\":" + jp(p) + ",\"pts\":" + jpts(v) + "}";
        }
        // a window of a longer sequence
        int before = r.below(3), after = r.below(3);
        for (int i = 0; i < before; ++i) {auto p = place(1); all.push_back(mk(p, w.scan(p, 40)));}
        for (auto & s : added) {all.push_back(s);}
        for (int i = 0; i < after; ++i) {auto p = place(1); all.push_back(mk(p, w.scan(p, 40)));}
        m.addScans(all.begin() + before, all.begin() + before + ns);
        bool same = true;
        for (int i = 0; i < ns; ++i) {same = same && unchanged(added[i], added[i]->getId(), copy[i].first, copy[i].second);}
        log(Ev("add").raw("scans", j + "]").b("same", same));
        continue;
      }
      if (op == 4) {m.reset(); log(Ev("reset")); continue;}
      // scans to score: from about there, shifted, elsewhere, empty
      for (int q = 0; q < matches; ++q) {
        auto p = place(k % 3 == 1 ? 5.0 : 1.0);
        auto v = w.scan(p, marks ? -1 : count(1, 60));
        if (marks) {v.resize(std::min<int>(v.size(), count(1, 12)));}
        double el = fine ? 0.01 : 0.15, et = fine ? 0.004 : 0.1;
        Pose2d guess(p.x + r.u(-el, el), p.y + r.u(-el, el), p.theta + r.u(-et, et));
        int kind = r.below(12);
        if (kind == 0) {v.clear();}
        if (kind == 1) {guess = Pose2d(p.x + 100, p.y - 300, p.theta);}      // no overlap
        if (kind == 2) {
          // hardly any overlap
          guess = p;
          double off = r.u(.1, .5);
          for (auto & x : v) {double d = std::hypot(x.x, x.y); x.x *= (d + off) / d; x.y *= (d + off) / d;}
        }
        if (kind == 3) {v.resize(count(1, std::min<int>(3, v.size())));}
        auto s = mk(guess, v);
        size_t id = s->getId();
        if (q % 2 || op >= 8) {
          double x = m.scorePoints(v, guess), y = m.scoreScan(s);
          log(Ev("score").raw("pose", jp(guess)).raw("pts", jpts(v)).r("v", x).r("vscan", y).b("same", unchanged(s, id, guess, v)));
        } else {
          Pose2d corr(0, 0, 0), corr2(0, 0, 0);
          Eigen::Matrix3d cov = Eigen::Matrix3d::Zero(), cov2 = Eigen::Matrix3d::Zero();
          double x = m.matchScan(s, corr, cov);
          bool same = unchanged(s, id, guess, v);
          double y = m.matchScan(s, corr2, cov2);
          bool rep = x == y && corr.x == corr2.x && corr.y == corr2.y && corr.theta == corr2.theta && !memcmp(cov.data(), cov2.data(), 72);
          log(Ev("match").raw("pose", jp(guess)).raw("pts", jpts(v)).raw("corr", jp(corr)).r("v", x).raw("cov", jmat(cov)).b("same", same).b("repeat", rep));
        }
      }
    }
  }
}
