// Replays histories on the bin counter.  in=<histories> out= seed= n= part= parts=
#include <ndt_2d/kd_tree.hpp>
#include "log.hpp"
int main(int argc, char ** argv)
{
  Args a(argc, argv);
  Log log(a.s("out").c_str());
  Rng r(a.i("seed", 1));
  auto all = histories(a.s("in").c_str());
  std::vector<std::vector<std::string>> hs;
  for (size_t i = a.i("part", 0); i < all.size(); i += a.i("parts", 1)) {hs.push_back(all[i]);}
  const char * ops[] = {"k0", "k1", "k2", "k3", "r", "r", "r", "r", "r", "x"};
  for (int k = 0; k < a.i("n", 100); ++k) {
    std::vector<std::string> h;
    int len = 10 + r.below(120), nx = r.coin() ? 10 : 9;
    for (int i = 0; i < len; ++i) {h.push_back(ops[r.below(nx)]);}
    hs.push_back(h);
  }
  for (int k = 0; k < a.i("n", 100) / 40; ++k) {
    // many bins, as with a filter that is lost
    std::vector<std::string> h;
    for (int t = 0; t < 2; ++t) {h.insert(h.end(), 900 + r.below(600), "r"); h.push_back("x"); h.push_back("k0"); h.push_back("k1");}
    hs.push_back(h);
  }
  int k = 0;
  for (auto & h : hs) {
    ++k;
    double sz[3] = {0.5, 0.5, 0.2671};
    if (k % 3 == 0) {sz[0] = 0.25; sz[1] = 2.0; sz[2] = 0.125;}
    if (k % 7 == 0) {sz[0] = 0.3; sz[1] = 0.7; sz[2] = 1.0;}
    log(Ev("new").raw("size", "[" + num(sz[0]) + "," + num(sz[1]) + "," + num(sz[2]) + "]"));
    ndt_2d::KDTree<double> tree(sz[0], sz[1], sz[2], r.below(3) * 50);
    double w = h.size() > 500 ? 30.0 : k % 5 == 0 ? 30.0 : (k % 5 == 1 ? 400.0 : 2.0);
    auto coord = [&](int i) {
        for (;;) {
          double v = r.u(-w, w);
          if (i == 2) {v = r.u(-3.2, 3.2);}
          if (r.below(4) == 0) {v = sz[i] * (r.below(9) - 4); if (sz[i] != 0.5 && sz[i] != 0.25 && sz[i] != 2.0 && sz[i] != 0.125 && sz[i] != 1.0) {continue;}}
          if (r.below(12) == 0) {v = 0;}
          return v;
        }
      };
    // places close together and on both sides of zero
    Eigen::Vector3d pl[4];
    for (auto & p : pl) {p = Eigen::Vector3d(r.u(-1.2, 1.2) * sz[0], r.u(-1.2, 1.2) * sz[1], r.u(-1.2, 1.2) * sz[2]);}
    if (k % 4 == 0) {pl[1] = -pl[0];}
    for (auto & op : h) {
      if (op == "x") {tree.clear(); log(Ev("clear").i("n", tree.getLeafCount())); continue;}
      Eigen::Vector3d key = op[0] == 'k' ? pl[op[1] - '0'] : Eigen::Vector3d(coord(0), coord(1), coord(2));
      double value = r.u(0, 1);
      Eigen::Vector3d key2 = key;
      tree.insert(key2, value);
      log(Ev("insert").raw("k", "[" + num(key(0)) + "," + num(key(1)) + "," + num(key(2)) + "]").i("n", tree.getLeafCount()));
    }
  }
}
