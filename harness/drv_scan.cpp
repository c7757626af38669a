// Replays histories on ndt_2d::Scan.  in=<histories> out=<trace> seed=<n> n=<random histories>
#include <ndt_2d/scan.hpp>
#include "log.hpp"
using namespace ndt_2d;
int main(int argc, char ** argv)
{
  Args a(argc, argv);
  Log log(a.s("out").c_str());
  Rng rng(a.i("seed", 1));
  auto hs = histories(a.s("in").c_str());
  const int extra = a.i("n", 200);
  const char * ops[] = {"p0", "p1", "s0", "s1", "s2", "q"};
  for (int k = 0; k < extra; ++k) {
    std::vector<std::string> h;
    int len = 5 + rng.below(25);
    for (int i = 0; i < len; ++i) {h.push_back(ops[rng.below(6)]);}
    hs.push_back(h);
  }
  size_t id = 0;
  for (auto & h : hs) {
    ++id;
    Scan scan(id);
    double mag = (id % 7 == 0) ? 1e4 : 20.0;
    Pose2d poses[2] = {Pose2d(rng.u(-mag, mag), rng.u(-mag, mag), rng.u(-4, 4)),
      Pose2d(rng.u(-mag, mag), rng.u(-mag, mag), rng.u(-10, 10))};
    if (rng.coin(0.2)) {poses[0] = Pose2d(0, 0, 0);}
    if (rng.coin(0.2)) {poses[1] = Pose2d(poses[0].x, poses[0].y, poses[0].theta + 1.0);}
    std::vector<std::vector<Point>> sets(3);
    for (int s = 1; s < 3; ++s) {
      int n = (s == 1) ? 1 + rng.below(2) : 2 + rng.below(12);
      for (int i = 0; i < n; ++i) {sets[s].push_back(Point(rng.u(-10, 10), rng.u(-10, 10)));}
    }
    // caches that look at less than everything: sets and poses that differ only in part
    switch (rng.below(6)) {
      case 0: sets[2].resize(sets[1].size()); break;
      case 1: sets[2] = sets[1]; sets[2].back() = Point(rng.u(-10, 10), rng.u(-10, 10)); break;
      case 2: sets[2] = sets[1]; sets[2].push_back(Point(rng.u(-10, 10), rng.u(-10, 10))); sets[2].front().x += 1; break;
      case 3: sets[1] = sets[2]; sets[1].front().y -= 2; break;
    }
    switch (rng.below(8)) {
      case 0: poses[1] = Pose2d(poses[0].x, poses[0].y + 1, poses[0].theta); break;
      case 1: poses[1] = Pose2d(poses[0].x + 1e-3, poses[0].y, poses[0].theta); break;
      case 2: poses[1] = Pose2d(poses[0].x, poses[0].y, poses[0].theta + 1e-3); break;
      case 3: poses[1] = Pose2d(poses[0].x + 2, poses[0].y - 1, poses[0].theta); break;
    }
    log(Ev("new"));
    for (auto & op : h) {
      if (op[0] == 'p') {
        auto & p = poses[op[1] - '0'];
        scan.setPose(p);
        log(Ev("pose").raw("v", jxyt(p.x, p.y, p.theta)));
      } else if (op[0] == 's') {
        auto & s = sets[op[1] - '0'];
        scan.setPoints(s);
        log(Ev("pts").raw("v", jarr(s, [](const Point & p) {return jxy(p.x, p.y);})));
      } else {
        Pose2d b = scan.getBarycenterPose();
        Pose2d p = scan.getPose();
        auto pts = scan.getPoints();
        log(Ev("query").raw("v", jxyt(b.x, b.y, b.theta)).raw("pose", jxyt(p.x, p.y, p.theta))
          .raw("pts", jarr(pts, [](const Point & p) {return jxy(p.x, p.y);}))
          .i("id", scan.getId()).i("id0", id));
      }
    }
  }
}
