// Executions of ndt_2d::NDT.  out=<trace> seed= n=<grids>
// Half of the grids have exactly representable borders and are queried and filled exactly on them; in the other half
// coordinates stay away from borders, so that rounding cannot decide the cell.
#include <ndt_2d/ndt_model.hpp>
#include "log.hpp"
using namespace ndt_2d;
static std::string jpts(const std::vector<Point> & v) {return jarr(v, [](const Point & p) {return jxy(p.x, p.y);});}
int main(int argc, char ** argv)
{
  Args a(argc, argv);
  Log log(a.s("out").c_str());
  Rng r(a.i("seed", 1));
  const int n = a.i("n", 100);
  for (int k = 0; k < n; ++k) {
    bool exact = k % 2 == 0;
    const double ecell[] = {0.25, 0.5, 1.0, 2.0}, fcell[] = {0.1, 0.25, 0.3, 0.7, 1.7};
    double cell = exact ? ecell[r.below(4)] : fcell[r.below(5)];
    double sx, sy, ox, oy;
    if (exact) {
      // whole numbers of cells, or a fraction of a cell more
      sx = cell * (1 + r.below(6)) + cell * 0.25 * r.below(4);
      sy = cell * (1 + r.below(6)) + cell * 0.25 * r.below(4);
      ox = cell * 0.5 * (r.below(41) - 20); oy = cell * 0.5 * (r.below(41) - 20);
    } else {
      sx = cell * (r.below(7) + r.u(0.1, 0.9)); sy = cell * (r.below(7) + r.u(0.1, 0.9));
      double m = k % 8 == 1 ? 1000.0 : 20.0;
      ox = r.u(-m, m); oy = r.u(-m, m);
    }
    int nx = static_cast<int>(sx / cell) + 1, ny = static_cast<int>(sy / cell) + 1;
    log(Ev("new").r("cell", cell).r("sx", sx).r("sy", sy).r("ox", ox).r("oy", oy));
    NDT ndt(cell, sx, sy, ox, oy);
    // between the requested extent and the end of its last cell a point may or may not be kept
    auto unclear = [&](double x, double y) {
        double u = (x - ox) / cell, v = (y - oy) / cell;
        if (!exact && (std::fabs(u - std::round(u)) < 1e-5 || std::fabs(v - std::round(v)) < 1e-5)) {return true;}
        bool fx = x > ox + sx && u < nx + 0.001, fy = y > oy + sy && v < ny + 0.001;
        return fx || fy;
      };
    auto anywhere = [&](double & x, double & y) {
        do {
          int kind = r.below(12);
          if (exact) {
            x = ox + cell * 0.125 * (r.below(8 * (nx + 4)) - 16); y = oy + cell * 0.125 * (r.below(8 * (ny + 4)) - 16);
            if (kind == 0) {x = ox + cell * r.below(nx);}
            if (kind == 1) {y = oy + cell * r.below(ny);}
            if (kind == 2) {x = ox + cell * r.below(nx); y = oy + cell * r.below(ny);}
            if (kind == 3) {x = std::nextafter(ox + cell * r.below(nx + 1), -1e9);}
            if (kind == 4) {x = ox + sx; }
            if (kind == 5) {y = oy + sy; }
          } else {
            x = r.u(ox - cell, ox + sx + 2 * cell); y = r.u(oy - cell, oy + sy + 2 * cell);
          }
          if (kind == 6) {x = r.u(-1e4, 1e4);}
          if (kind == 7) {y = r.u(-1e4, 1e4);}
          if (kind == 8 && r.coin(0.3)) {x = ox + std::ldexp(cell, 32) + cell * (r.below(nx) + 0.5);}
          if (kind == 9 && r.coin(0.3)) {y = (r.coin() ? 1 : -1) * 1e30;}
        } while (unclear(x, y));
      };
    std::vector<std::pair<Pose2d, std::vector<Point>>> given;
    auto makeScan = [&](std::vector<Point> & pts) {
        Pose2d pose(0, 0, 0);
        if (exact) {
          pose = Pose2d(cell * 0.25 * (r.below(17) - 8), cell * 0.25 * (r.below(17) - 8), 0.0);
        } else {
          pose = Pose2d(ox + r.u(-5, 5), oy + r.u(-5, 5), r.u(-7, 7));
        }
        int m = r.below(8) == 0 ? 0 : 4 + r.below(40);
        double c = cos(pose.theta), s = sin(pose.theta);
        // clusters, so that cells reach five points
        double hx, hy;
        anywhere(hx, hy);
        for (int i = 0; i < m; ++i) {
          if (r.below(8) == 0) {anywhere(hx, hy);}
          double x, y;
          int guard = 0;
          do {
            if (exact) {
              x = hx + cell * 0.125 * (r.below(9) - 4); y = hy + cell * 0.125 * (r.below(9) - 4);
            } else {
              x = hx + cell * r.u(-.5, .5); y = hy + cell * r.u(-.5, .5);
            }
            if (++guard > 20) {anywhere(hx, hy); x = hx; y = hy;}
          } while (unclear(x, y));
          Point p(c * (x - pose.x) + s * (y - pose.y), -s * (x - pose.x) + c * (y - pose.y));
          pts.push_back(p);
        }
        return pose;
      };
    auto scanOf = [&](const Pose2d & pose, const std::vector<Point> & pts) {
        auto s = std::make_shared<Scan>(r.below(1000));
        s->setPose(pose); s->setPoints(pts);
        return s;
      };
    int rounds = 1 + r.below(3);
    bool computed = false;
    for (int round = 0; round < rounds; ++round) {
      int adds = r.below(4);
      for (int i = 0; i < adds; ++i) {
        std::vector<Point> pts;
        Pose2d pose = makeScan(pts);
        log(Ev("scan").raw("pose", jxyt(pose.x, pose.y, pose.theta)).raw("pts", jpts(pts)));
        ndt.addScan(scanOf(pose, pts));
        given.emplace_back(pose, pts);
      }
      if (r.coin(0.9)) {ndt.compute(); log(Ev("compute")); computed = true;}
      if (!computed) {continue;}
      for (int q = 0; q < 25; ++q) {
        double x, y;
        anywhere(x, y);
        if (q % 2 && !given.empty()) {
          // near what was added
          auto & g = given[r.below(given.size())];
          if (!g.second.empty()) {
            auto & p = g.second[r.below(g.second.size())];
            double c = cos(g.first.theta), s = sin(g.first.theta);
            double px = g.first.x + c * p.x - s * p.y, py = g.first.y + s * p.x + c * p.y;
            if (!exact) {px += cell * r.u(-.2, .2); py += cell * r.u(-.2, .2);}
            if (!unclear(px, py)) {x = px; y = py;}
          }
        }
        double v = ndt.likelihood(Eigen::Vector2d(x, y));
        double v3 = ndt.likelihood(Eigen::Vector3d(x, y, q % 3));
        log(Ev("q").raw("p", jxy(x, y)).r("v", v).r("v3", v3));
      }
      std::vector<Point> lst;
      Pose2d pose = makeScan(lst);
      if (!given.empty() && r.coin()) {pose = given[0].first; lst = given[0].second;}
      auto s = scanOf(pose, lst);
      double v = ndt.likelihood(s);
      Pose2d after = s->getPose();
      auto ap = s->getPoints();
      bool same = after.x == pose.x && after.y == pose.y && after.theta == pose.theta && ap.size() == lst.size();
      for (size_t i = 0; i < lst.size() && same; ++i) {same = ap[i].x == lst[i].x && ap[i].y == lst[i].y;}
      log(Ev("qscan").raw("pose", jxyt(pose.x, pose.y, pose.theta)).raw("pts", jpts(lst)).r("v", v).b("same", same));
      std::vector<Point> world;
      for (auto & p : lst) {
        double c = cos(pose.theta), sn = sin(pose.theta);
        world.emplace_back(pose.x + (c * p.x - sn * p.y), pose.y + (sn * p.x + c * p.y));
      }
      log(Ev("qlist").raw("pts", jpts(world)).r("v", ndt.likelihood(world)));
    }
  }
}
