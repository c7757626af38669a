// mode=make : makeConstraint on many pose pairs and covariances.
// mode=opt  : histories of growing, moving and optimizing a pose graph.
#include <ndt_2d/ceres_solver.hpp>
#include <ndt_2d/constraint.hpp>
#include <Eigen/Eigenvalues>
#include <Eigen/Geometry>
#include "log.hpp"
using namespace ndt_2d;
static std::string jp(const Pose2d & p) {return jxyt(p.x, p.y, p.theta);}
static bool sameBits(const Pose2d & a, const Pose2d & b) {return !memcmp(&a.x, &b.x, 8) && !memcmp(&a.y, &b.y, 8) && !memcmp(&a.theta, &b.theta, 8);}

static Eigen::Matrix3d spd(Rng & r, double lo, double hi, int kind)
{
  Eigen::Matrix3d d = Eigen::Matrix3d::Zero();
  for (int i = 0; i < 3; ++i) {d(i, i) = std::exp(r.u(std::log(lo), std::log(hi)));}
  if (kind == 0) {return d;}
  Eigen::Matrix3d q =
    (Eigen::AngleAxisd(r.u(-3, 3), Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(r.u(-3, 3), Eigen::Vector3d::UnitY()) *
    Eigen::AngleAxisd(r.u(-3, 3), Eigen::Vector3d::UnitZ())).toRotationMatrix();
  Eigen::Matrix3d m = q * d * q.transpose();
  return 0.5 * (m + m.transpose());
}
static Pose2d compose(const Pose2d & a, double x, double y, double t)
{
  return Pose2d(a.x + cos(a.theta) * x - sin(a.theta) * y, a.y + sin(a.theta) * x + cos(a.theta) * y, a.theta + t);
}
static ScanPtr mkscan(Rng & r, size_t id, const Pose2d & p)
{
  auto s = std::make_shared<Scan>(id);
  s->setPose(p);
  std::vector<Point> pts(r.below(5));
  for (auto & q : pts) {q = Point(r.u(-5, 5), r.u(-5, 5));}
  s->setPoints(pts);
  return s;
}
static bool samePts(const std::vector<Point> & a, const std::vector<Point> & b)
{
  if (a.size() != b.size()) {return false;}
  for (size_t i = 0; i < a.size(); ++i) {if (a[i].x != b[i].x || a[i].y != b[i].y) {return false;}}
  return true;
}

int main(int argc, char ** argv)
{
  Args a(argc, argv);
  Log log(a.s("out").c_str());
  Rng r(a.i("seed", 1));
  const int n = a.i("n", 100);
  if (a.s("mode") == "make") {
    for (int k = 0; k < n; ++k) {
      double mag = k % 5 == 0 ? 1e3 : 10;
      Pose2d pa(r.u(-mag, mag), r.u(-mag, mag), r.u(-7, 7)), pb(r.u(-mag, mag), r.u(-mag, mag), r.u(-7, 7));
      if (k % 11 == 0) {pb = pa;}
      if (k % 13 == 0) {pa = Pose2d(0, 0, 0);}
      auto sa = mkscan(r, r.below(100000), pa), sb = mkscan(r, r.below(100000), pb);
      auto ta = sa->getPoints(), tb = sb->getPoints();
      size_t ia = sa->getId(), ib = sb->getId();
      Eigen::Matrix3d cov = spd(r, 1e-4, 10, k % 3);
      Eigen::Matrix3d cov0 = cov;
      auto c = makeConstraint(sa, sb, cov);
      bool same = cov == cov0 && sa->getId() == ia && sb->getId() == ib && sameBits(sa->getPose(), pa) && sameBits(sb->getPose(), pb) &&
        samePts(ta, sa->getPoints()) && samePts(tb, sb->getPoints());
      log(Ev("make").i("fromid", ia).i("toid", ib).raw("from", jp(pa)).raw("dest", jp(pb)).raw("cov", jmat(cov0))
        .i("b", c->begin).i("to", c->end).raw("tr", jxyt(c->transform(0), c->transform(1), c->transform(2)))
        .raw("info", jmat(c->information)).b("sw", c->switchable).b("same", same));
    }
    return 0;
  }
  for (int k = 0; k < n; ++k) {
    log(Ev("new"));
    CeresSolver solver;
    std::vector<ScanPtr> scans;
    std::vector<ConstraintPtr> cons;
    std::vector<Pose2d> truth;           // what consistent constraints agree with
    bool consistent = k % 3 == 0;
    double noise = consistent ? 0.0 : (k % 3 == 1 ? 0.05 : 0.15);
    double anis = k % 2 ? 100.0 : 1.0;
    bool broken = k % 17 == 16, bad = false;
    double mag = k % 4 == 3 ? 500.0 : 0.0;
    bool wrong = !consistent && r.coin(0.4);   // closures that contradict the rest by far
    bool lng = r.coin(0.15);             // a long drifted chain before anything is optimized
    bool late = !lng && r.coin(0.25);    // the first scan is tied to the others in the end only
    auto addScan = [&]() {
        Pose2d t = truth.empty() ? Pose2d(r.u(-3, 3) + mag, r.u(-3, 3) - mag, r.u(-3, 3)) :
          compose(truth.back(), r.u(0.2, 2), r.u(-1, 1), r.u(-2.5, 2.5));
        // headings beyond a full turn and across the seam
        truth.push_back(t);
        Pose2d init(t.x + r.u(-.1, .1), t.y + r.u(-.1, .1), t.theta + r.u(-.05, .05));
        if (lng && scans.size() > 0) {
          // the estimate drifts, as odometry does
          auto & q = truth[truth.size() - 2];
          double dx = t.x - q.x, dy = t.y - q.y, c = cos(q.theta), sn = sin(q.theta);
          init = compose(scans.back()->getPose(), c * dx + sn * dy + r.u(-.1, .1), -sn * dx + c * dy + r.u(-.1, .1), t.theta - q.theta + r.u(-.02, .15));
        }
        if (truth.size() == 1) {init = t;}
        if (k % 5 == 2) {init.theta = std::remainder(init.theta, 2 * M_PI);}
        if (truth.size() == 1) {truth[0] = init;}
        auto s = mkscan(r, scans.size(), init);
        scans.push_back(s);
        log(Ev("scan").raw("p", jp(init)));
      };
    auto addCon = [&](int b, int e, bool nan = false, bool outlier = false) {
        auto c = std::make_shared<Constraint>();
        c->begin = b; c->end = e;
        double dx = truth[e].x - truth[b].x, dy = truth[e].y - truth[b].y, th = truth[b].theta;
        c->transform = Eigen::Vector3d(cos(th) * dx + sin(th) * dy + noise * r.u(-1, 1), -sin(th) * dx + cos(th) * dy + noise * r.u(-1, 1),
            truth[e].theta - truth[b].theta + noise * r.u(-1, 1));
        if (r.coin(0.3)) {c->transform(2) += 2 * M_PI;}
        if (outlier) {c->transform(0) += r.u(1, 4) * (r.coin() ? 1 : -1); c->transform(1) += r.u(-2, 2);}
        if (nan) {c->transform(0) = NAN;}
        c->information = spd(r, 1.0, 1.0 * anis, 1 + r.below(2));
        c->switchable = r.coin(outlier ? 0.7 : 0.3);
        cons.push_back(c);
        log(Ev("con").i("b", b).i("to", e).raw("tr", jxyt(c->transform(0), c->transform(1), c->transform(2))).raw("info", jmat(c->information)).b("bad", nan));
      };
    auto optimize = [&]() {
        std::vector<ScanPtr> copy, keep = scans;
        for (auto & s : scans) {
          auto t = std::make_shared<Scan>(s->getId());
          t->setPose(s->getPose()); t->setPoints(s->getPoints());
          copy.push_back(t);
        }
        std::vector<Constraint> before;
        for (auto & c : cons) {before.push_back(*c);}
        auto keepc = cons;
        bool ret = solver.optimize(cons, scans);
        bool same = keepc == cons && keep == scans;
        for (size_t i = 0; i < cons.size(); ++i) {
          same = same && cons[i]->begin == before[i].begin && cons[i]->end == before[i].end && cons[i]->switchable == before[i].switchable &&
            !memcmp(cons[i]->transform.data(), before[i].transform.data(), 24) && !memcmp(cons[i]->information.data(), before[i].information.data(), 72);
        }
        for (size_t i = 0; i < scans.size() && i < copy.size(); ++i) {
          same = same && scans[i]->getId() == copy[i]->getId() && samePts(scans[i]->getPoints(), copy[i]->getPoints());
        }
        CeresSolver fresh;
        if (!copy.empty()) {fresh.optimize(cons, copy);}
        log(Ev("opt").b("ret", ret).b("same", same).b("consistent", consistent && !bad)
          .raw("poses", jarr(scans, [](const ScanPtr & s) {return jp(s->getPose());}))
          .raw("fresh", jarr(copy, [](const ScanPtr & s) {return jp(s->getPose());})));
      };
    if (r.coin(0.2)) {optimize();}   // empty
    int rounds = (late ? 2 : 1) + r.below(3);
    for (int round = 0; round < rounds; ++round) {
      int add = lng && round == 0 ? 15 + r.below(20) : 1 + r.below(4);
      if (round == 0 && r.coin(0.2)) {addScan(); optimize();}
      for (int i = 0; i < add; ++i) {
        addScan();
        int m = scans.size();
        if (m > 1 && !(late && m == 2)) {addCon(m - 2, m - 1);}
      }
      if (late && scans.size() > 2 && round > 0) {
        if (r.coin()) {addCon(0, 1 + r.below(scans.size() - 1));} else {addCon(1 + r.below(scans.size() - 1), 0);}
        late = false;
      }
      // loop closures, both directions
      int loops = r.below(4);
      for (int i = 0; i < loops && scans.size() > 2; ++i) {
        int b = r.below(scans.size()), e = r.below(scans.size());
        if (b != e && !(late && b * e == 0)) {addCon(b, e, false, wrong && r.coin(0.6));}
      }
      if (broken && round == rounds - 1 && scans.size() > 1) {addCon(0, scans.size() - 1, true); bad = true;}
      if (r.coin(0.3) && !bad) {
        // a scan nobody is tied to
        addScan();
        optimize();
        if (r.coin()) {
          int i = scans.size() - 1;
          Pose2d p(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3));
          scans[i]->setPose(p);
          log(Ev("move").i("i", i).raw("p", jp(p)));
          optimize();
        }
        addCon(scans.size() - 2 + (scans.size() < 2), scans.size() - 1);
        if (scans.size() < 2) {cons.pop_back();}
      }
      optimize();
      if (bad) {break;}
      if (r.coin(0.4)) {
        // the caller moves a scan a little, also the first one
        int i = r.below(scans.size());
        Pose2d p = scans[i]->getPose();
        p.x += r.u(-.05, .05); p.y += r.u(-.05, .05); p.theta += r.u(-.05, .05);
        scans[i]->setPose(p);
        if (i == 0) {
          // constraints stay as they are; the rest has to follow the anchor
          auto q = truth[0];
          std::vector<Pose2d> rel;
          double c = cos(q.theta), s = sin(q.theta);
          for (auto & t : truth) {
            double dx = t.x - q.x, dy = t.y - q.y;
            rel.push_back(Pose2d(c * dx + s * dy, -s * dx + c * dy, t.theta - q.theta));
          }
          for (size_t j = 0; j < truth.size(); ++j) {truth[j] = compose(p, rel[j].x, rel[j].y, rel[j].theta);}
        }
        log(Ev("move").i("i", i).raw("p", jp(p)));
        optimize();
      }
    }
  }
}
