// Replays histories on ndt_2d::Cell.  in=<histories> out=<trace> seed= n=<random histories> part= parts=
#include <ndt_2d/ndt_model.hpp>
#include "log.hpp"
using namespace ndt_2d;
static std::string jv(const Eigen::Vector2d & v) {return "[" + num(v(0)) + "," + num(v(1)) + "]";}
int main(int argc, char ** argv)
{
  Args a(argc, argv);
  Log log(a.s("out").c_str());
  Rng r(a.i("seed", 1));
  auto all = histories(a.s("in").c_str());
  std::vector<std::vector<std::string>> hs;
  for (size_t i = a.i("part", 0); i < all.size(); i += a.i("parts", 1)) {hs.push_back(all[i]);}
  const char * ops[] = {"a0", "a1", "a2", "a3", "a4", "a5", "c", "s"};
  for (int k = 0; k < a.i("n", 100); ++k) {
    std::vector<std::string> h;
    int len = 8 + r.below(40);
    for (int i = 0; i < len; ++i) {h.push_back(ops[r.below(8)]);}
    hs.push_back(h);
  }
  for (int k = 0; k < a.i("n", 100) / 40; ++k) {
    // cells of a map of many scans
    std::vector<std::string> h;
    int len = 300 + r.below(900);
    for (int i = 0; i < len; ++i) {h.push_back(r.coin(0.03) ? ops[6 + r.below(2)] : ops[r.below(6)]);}
    h.push_back("c"); h.push_back("s");
    hs.push_back(h);
  }
  int k = 0;
  for (auto & h : hs) {
    ++k;
    log(Ev("new"));
    Cell cell;
    // where the points lie
    double mag = k % 6 == 0 ? 1e3 : (k % 6 == 1 ? 1.0 : 20.0);
    double w = k % 4 == 0 ? 1.0 : 0.25;
    double cx = r.u(-mag, mag), cy = r.u(-mag, mag), th = r.u(-3.2, 3.2);
    if (k % 10 == 3) {th = 0; cx = 2; cy = -1;}
    int family = r.below(5);   // 0,1 generic, 2 nearly on a line, 3 on a line, 4 few distinct places
    Eigen::Vector2d places[6];
    for (auto & p : places) {
      double u = r.u(0, w), v = r.u(0, w);
      if (family == 2) {v *= r.u(0, 0.05);}
      if (family == 3) {v = 0;}
      if (family == 4 && r.coin(0.7)) {u = v = 0;}
      p = Eigen::Vector2d(cx + u * cos(th) - v * sin(th), cy + u * sin(th) + v * cos(th));
    }
    auto add = [&](int i) {
        Eigen::Vector2d p = places[i];
        if (family < 2 && r.coin(0.5)) {p = Eigen::Vector2d(cx + r.u(0, w), cy + r.u(0, w));}
        log(Ev("add").r("x", p(0)).r("y", p(1)));
        cell.addPoint(p);
      };
    for (int i = 0; i < (k % 3) * 2; ++i) {add(r.below(6));}
    bool first = true;
    for (auto & op : h) {
      if (op[0] == 'a') {add(op[1] - '0');} else if (op[0] == 'c') {
        cell.compute();
        log(Ev("compute").r("n", cell.n).raw("mean", jv(cell.mean)).raw("cov", jmat(cell.covariance)).raw("info", jmat(cell.information)));
      } else {
        for (int rep = 0; rep < 2; ++rep) {
          Eigen::Vector2d q(cx + r.u(-w, w), cy + r.u(-w, w));
          int kind = r.below(5);
          if (kind == 0 && cell.n > 0) {q = cell.mean;}
          if (kind == 1) {q = places[r.below(6)];}
          if (kind == 2 && cell.n > 0) {q = cell.mean + Eigen::Vector2d(r.u(-1, 1), r.u(-1, 1)) * 0.05 * w;}
          if (kind == 3) {q = Eigen::Vector2d(r.u(-1e5, 1e5), r.u(-1e5, 1e5));}
          double v = cell.score(q);
          log(Ev("score").r("x", q(0)).r("y", q(1)).r("v", v).raw("mean", jv(cell.mean)).raw("info", jmat(cell.information)));
        }
      }
      first = false;
    }
    (void)first;
  }
}
