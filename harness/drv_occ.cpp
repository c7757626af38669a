// Renders sets of scans with one occupancy grid object after the other.  out= seed= n=
#include <ndt_2d/occupancy_grid.hpp>
#include "log.hpp"
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::ScanPtr;
static std::string jgrid(const nav_msgs::msg::OccupancyGrid & g)
{
  auto & p = g.info.origin;
  std::string s = "{\"res\":" + num(g.info.resolution) + ",\"w\":" + std::to_string(g.info.width) + ",\"h\":" + std::to_string(g.info.height) +
    ",\"ox\":" + num(p.position.x) + ",\"oy\":" + num(p.position.y) + ",\"oz\":" + num(p.position.z) + ",\"qx\":" + num(p.orientation.x) +
    ",\"qy\":" + num(p.orientation.y) + ",\"qz\":" + num(p.orientation.z) + ",\"qw\":" + num(p.orientation.w) + ",\"n\":" + std::to_string(g.data.size());
  // runs of equal cells: [value, first index, count]
  s += ",\"known\":[";
  bool first = true;
  for (size_t i = 0; i < g.data.size(); ++i) {
    if (g.data[i] == -1) {continue;}
    if (!first) {s += ",";}
    first = false;
    s += "[" + std::to_string(i) + "," + std::to_string(g.data[i]) + "]";
  }
  return s + "]}";
}
int main(int argc, char ** argv)
{
  Args a(argc, argv);
  Log log(a.s("out").c_str());
  Rng r(a.i("seed", 1));
  for (long k = 0; k < a.i("n", 10); ++k) {
    const double RES[] = {0.05, 0.05, 0.25, 0.5, 0.1, 1.0, 0.03, 0.33, 2.0};
    const double THR[] = {0.25, 0.5, 0.25, 0.1, 0.65, 0.33, 0.0, 0.75};
    double res = RES[r.below(9)], thr = THR[r.below(8)];
    bool dyadic = res == 0.25 || res == 0.5 || res == 1.0 || res == 2.0;
    log(Ev("new").r("res", res).r("thr", thr));
    ndt_2d::OccupancyGrid og(res, thr);
    nav_msgs::msg::OccupancyGrid used;
    std::vector<ScanPtr> scans;
    int rounds = 1 + r.below(5), reach = 3 + r.below(25);
    // somewhere within a cell, away from its borders (or exactly on one, where that is representable)
    int cx = 0, cy = 0;
    // beams over hundreds of cells
    const bool lng = k % 15 == 11;
    if (lng) {reach = 300 + r.below(500); rounds = 1;}
    bool many = false;
    auto coord = [&](int c) {
        if (dyadic && r.coin(0.15)) {return c * res;}
        return (c + r.u(0.05, 0.95)) * res;
      };
    for (int t = 0; t < rounds; ++t) {
      int what = r.below(6);
      if (many) {scans.clear(); many = false;}
      if (t == 0 || what == 0) {scans.clear();}
      if (what == 1 && !scans.empty()) {scans.resize(r.below(scans.size()));}
      if (what == 2) {  // moved, like by an optimization
        for (auto & s : scans) {
          auto q = s->getPose();
          int sh = r.below(9) - 4, sv = r.below(9) - 4;
          q.x += sh * res; q.y += sv * res;
          bool exact = dyadic;
          // a shift by whole cells keeps the distance to borders
          (void)exact;
          s->setPose(q);
        }
      }
      int add = lng ? 1 + r.below(2) : (what == 3 ? 0 : r.below(4));
      if (r.coin(0.2)) {cx = r.below(2 * reach) - reach; cy = r.below(2 * reach) - reach;}
      if (r.coin(0.1)) {cx = -reach; cy = -reach;}
      for (int i = 0; i < add && scans.size() < 6; ++i) {
        auto s = std::make_shared<ndt_2d::Scan>(scans.size());
        double px = coord(cx + r.below(9) - 4), py = coord(cy + r.below(9) - 4);
        double th = r.coin(0.25) ? 0 : r.u(-3.14, 3.14);
        if (r.coin(0.1) && dyadic) {px = py = 0;}
        s->setPose(Pose2d(px, py, th));
        std::vector<Point> pts;
        int np = r.coin(0.15) ? 0 : 1 + r.below(lng ? 3 : 7);
        int wx = 0, wy = 0;
        for (int j = 0; j < np; ++j) {
          // sometimes several beams end in, or pass through, one cell
          if (j == 0 || r.coin(0.7)) {wx = cx + r.below(2 * reach) - reach; wy = cy + r.below(2 * reach) - reach;}
          if (r.coin(lng ? 0.3 : 0.1)) {wx = static_cast<int>(std::floor(px / res));}
          if (r.coin(lng ? 0.3 : 0.1)) {wy = static_cast<int>(std::floor(py / res));}
          double gx, gy;
          if (th == 0) {gx = coord(wx); gy = coord(wy);} else {gx = (wx + r.u(0.05, 0.95)) * res; gy = (wy + r.u(0.05, 0.95)) * res;}
          double dx = gx - px, dy = gy - py;
          pts.push_back(Point(cos(th) * dx + sin(th) * dy, -sin(th) * dx + cos(th) * dy));
        }
        s->setPoints(pts);
        scans.push_back(s);
      }
      // the robot may stay at one place for a long time: the same observations again and again
      if (!scans.empty() && !lng && r.coin(0.15)) {
        const int TIMES[] = {2, 3, 10, 100, 127, 128, 200, 255, 256, 257, 300, 1000, 32768, 65536, 66000};
        many = true;
        std::vector<ScanPtr> all;
        for (auto & q : scans) {all.insert(all.end(), r.coin(0.3) ? 1 + r.below(90) : TIMES[r.below(15)], q);}
        scans = all;
      }
      nav_msgs::msg::OccupancyGrid fresh;
      bool reuse = r.coin();
      if (!reuse) {used = nav_msgs::msg::OccupancyGrid();}
      og.getMsg(scans, used);
      ndt_2d::OccupancyGrid og2(res, thr);
      og2.getMsg(scans, fresh);
      Ev e("render");
      // a scan given many times over is written once
      std::vector<std::pair<ScanPtr, long>> runs;
      for (auto & q : scans) {
        if (!runs.empty() && runs.back().first == q) {++runs.back().second;} else {runs.push_back({q, 1});}
      }
      e.raw("scans", jarr(runs, [](const std::pair<ScanPtr, long> & run) {
          auto & s = run.first;
          return "{\"k\":" + std::to_string(run.second) + ",\"p\":" + jxyt(s->getPose().x, s->getPose().y, s->getPose().theta) + ",\"pts\":" +
                 jarr(s->getPoints(), [](const Point & p) {return jxy(p.x, p.y);}) + "}";
        }));
      e.raw("g", jgrid(used)).b("same", jgrid(used) == jgrid(fresh)).raw("fresh", jgrid(used) == jgrid(fresh) ? "[]" : jgrid(fresh));
      log(e);
    }
  }
}
