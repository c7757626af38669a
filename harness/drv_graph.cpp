// Replays histories on ndt_2d::Graph.  in=<histories> out= seed= n= part= parts= only=<save|near|draw>
#include <ndt_2d/graph.hpp>
#include <simros/world.cpp.inc>
#include <cfloat>
#include "log.hpp"
using namespace ndt_2d;
static std::string jpts(const std::vector<Point> & v) {return jarr(v, [](const Point & p) {return jxy(p.x, p.y);});}
static std::string jp(const Pose2d & p) {return jxyt(p.x, p.y, p.theta);}
static std::string fields(const ScanPtr & s)
{
  return "\"id\":" + std::to_string(s->getId()) + ",\"pose\":" + jp(s->getPose()) + ",\"pts\":" + jpts(s->getPoints());
}
static std::string fields(const ConstraintPtr & c)
{
  return "\"b\":" + std::to_string(c->begin) + ",\"to\":" + std::to_string(c->end) + ",\"tr\":" + jxyt(c->transform(0), c->transform(1), c->transform(2)) +
         ",\"info\":" + jmat(c->information) + ",\"sw\":" + (c->switchable ? "true" : "false");
}
static std::string jscans(const Graph & g) {return jarr(g.scans, [](const ScanPtr & s) {return "{" + fields(s) + "}";});}
static std::string jcons(const Graph & g) {return jarr(g.constraints, [](const ConstraintPtr & c) {return "{" + fields(c) + "}";});}
static bool sameFile(const std::vector<simros::BagRecord> & a, const std::vector<simros::BagRecord> & b)
{
  if (a.size() != b.size()) {return false;}
  for (size_t i = 0; i < a.size(); ++i) {if (a[i].topic != b[i].topic || a[i].type != b[i].type || a[i].data != b[i].data) {return false;}}
  return true;
}
int main(int argc, char ** argv)
{
  Args a(argc, argv);
  Log log(a.s("out").c_str());
  Rng r(a.i("seed", 1));
  std::string only = a.s("only");
  auto all = histories(a.s("in").c_str());
  std::vector<std::vector<std::string>> hs;
  for (size_t i = a.i("part", 0); i < all.size(); i += a.i("parts", 1)) {hs.push_back(all[i]);}
  const char * ops[] = {"s", "c", "m", "n", "l", "w", "r", "v", "s", "s", "s", "c", "p"};
  for (int k = 0; k < a.i("n", 100); ++k) {
    std::vector<std::string> h;
    int len = 8 + r.below(30), big = r.below(6) == 0 ? 40 : 0;
    for (int i = 0; i < big; ++i) {h.push_back("s");}
    for (int i = 0; i < len; ++i) {h.push_back(ops[r.below(13)]);}
    hs.push_back(h);
  }
  for (int k = 0; k < a.i("n", 100) / 70; ++k) {
    // a map of a long drive
    std::vector<std::string> h(100 + r.below(200), "s");
    for (int i = only == "draw" ? 250 : 20; i > 0; --i) {h.push_back("c");}
    for (int i = 0; i < 12; ++i) {h.push_back(ops[r.below(13)]);}
    h.push_back(only == "draw" ? "v" : (only == "save" ? "w" : "n")); h.push_back(only == "save" ? "r" : "m"); h.push_back("l");
    hs.push_back(h);
  }
  int64_t now = 0;
  simros::world().now_ns = [&] {return now;};
  int k = 0;
  for (auto & h : hs) {
    ++k;
    bool bary = r.coin();
    simros::disk().files.clear();
    log(Ev("new").b("bary", bary));
    auto g = std::make_shared<Graph>(bary);
    std::vector<std::string> files;
    double mag = k % 7 == 0 ? 1000.0 : 10.0;
    auto value = [&](double m) -> double {
        int kind = r.below(14);
        if (only == "save") {
          if (kind == 0) {return -0.0;}
          if (kind == 1) {return DBL_MIN / 8;}
          if (kind == 2) {return -1.7e308;}
          if (kind == 3) {return 16777217.0;}
          if (kind == 4) {return 1.0 / 3.0;}
        }
        return r.u(-m, m);
      };
    auto pose = [&] {return Pose2d(value(mag), value(mag), value(7));};
    auto points = [&] {
        std::vector<Point> v(r.below(4) == 0 ? 0 : 1 + r.below(only == "draw" ? 2 : 8));
        for (auto & p : v) {p = Point(value(8), value(8));}
        return v;
      };
    auto addScan = [&] {
        size_t id = r.below(5) == 0 ? r.below(100000) : g->scans.size();
        auto s = std::make_shared<Scan>(id);
        s->setPose(pose());
        s->setPoints(points());
        g->scans.push_back(s);
        log(Ev("scan").raw("id", std::to_string(id)).raw("pose", jp(s->getPose())).raw("pts", jpts(s->getPoints())));
      };
    for (auto & op : h) {
      if (op == "s") {addScan();}
      if (op == "c" && g->scans.size() > 1) {
        auto c = std::make_shared<Constraint>();
        c->begin = r.below(g->scans.size());
        do {c->end = r.below(g->scans.size());} while (c->end == c->begin);
        c->transform = Eigen::Vector3d(value(10), value(10), value(4));
        for (int i = 0; i < 9; ++i) {c->information(i / 3, i % 3) = value(500);}
        c->switchable = r.coin();
        g->constraints.push_back(c);
        log(Ev("con").raw("b", std::to_string(c->begin)).raw("to", std::to_string(c->end)).raw("tr", jxyt(c->transform(0), c->transform(1), c->transform(2)))
          .raw("info", jmat(c->information)).b("sw", c->switchable));
      }
      if (op == "m" && !g->scans.empty()) {
        int i = r.below(g->scans.size());
        auto p = r.coin(0.2) ? g->scans[r.below(g->scans.size())]->getPose() : pose();   // maybe at the same place
        g->scans[i]->setPose(p);
        log(Ev("move").i("i", i).raw("p", jp(p)));
      }
      if (op == "p" && !g->scans.empty()) {
        int i = r.below(g->scans.size());
        auto v = points();
        if (v.empty()) {v.emplace_back(1, 1);}
        g->scans[i]->setPoints(v);
        log(Ev("pts").i("i", i).raw("v", jpts(v)));
      }
      if (op == "w") {
        std::string f = "f" + std::to_string(files.size());
        files.push_back(f);
        bool ret = g->save(f);
        log(Ev("save").t("f", f).b("ret", ret).raw("scans", jscans(*g)).raw("cons", jcons(*g)));
      }
      if (op == "r" && !files.empty()) {
        std::string f = files[r.below(files.size())];
        g = std::make_shared<Graph>(bary, f);
        g->save("again");
        bool same = sameFile(simros::disk().files["again"], simros::disk().files[f]);
        simros::disk().files.erase("again");
        log(Ev("load").t("f", f).raw("scans", jscans(*g)).raw("cons", jcons(*g)).b("resave", same));
      }
      if ((op == "n" || op == "l") && only != "save") {
        auto q = std::make_shared<Scan>(r.below(50));
        q->setPose(pose());
        q->setPoints(points());
        if (!g->scans.empty() && r.coin(0.4)) {q = g->scans[r.below(g->scans.size())];}
        double d = r.coin(0.2) ? r.u(0, 1) : r.u(0, mag * 2);
        int limit = -1;
        if (op == "l" && !g->scans.empty()) {limit = 1 + r.below(g->scans.size());}
        if (op == "l" && r.below(5) == 0) {limit = 0;}
        auto before = jscans(*g) + jcons(*g) + fields(q);
        std::vector<size_t> res = limit < 0 ? g->findNearest(q, d) : g->findNearest(q, d, limit);
        bool same = before == jscans(*g) + jcons(*g) + fields(q);
        log(Ev("near").raw("q", "{" + fields(q) + "}").r("d", d).i("limit", limit).raw("res", jarr(res, [](size_t i) {return std::to_string(i);})).b("same", same));
      }
      if (op == "v") {
        visualization_msgs::msg::MarkerArray msg;
        now = 1000000000LL * r.below(1000) + r.below(1000000000);
        rclcpp::Time t(now);
        auto before = jscans(*g) + jcons(*g);
        g->getMsg(msg, t);
        bool same = before == jscans(*g) + jcons(*g);
        builtin_interfaces::msg::Time bt = t;
        // scans are drawn one by one, constraints as lines; their namespaces differ
        std::string nodens = msg.markers.empty() || g->scans.empty() ? "nodes" : msg.markers[0].ns;
        using M = visualization_msgs::msg::Marker;
        log(Ev("msg").t("nodens", nodens).b("same", same).raw("m", jarr(msg.markers, [&](const M & m) {
            bool line = m.type == M::LINE_STRIP || m.type == M::LINE_LIST;
            double sc = m.scale.x;
            if (!line) {sc = std::min(m.scale.x, std::min(m.scale.y, m.scale.z));}
            return std::string("{\"ns\":\"") + m.ns + "\",\"id\":" + std::to_string(m.id) + ",\"shape\":\"" + (line ? "line" : "point") +
            "\",\"frame\":\"" + m.header.frame_id + "\",\"now\":" + (m.header.stamp.sec == bt.sec && m.header.stamp.nanosec == bt.nanosec ? "true" : "false") +
            ",\"add\":" + (m.action == M::ADD ? "true" : "false") + ",\"a\":" + num(m.color.a) + ",\"r\":" + num(m.color.r) + ",\"g\":" + num(m.color.g) +
            ",\"b\":" + num(m.color.b) + ",\"scale\":" + num(sc) + ",\"pos\":{\"x\":" + num(m.pose.position.x) + ",\"y\":" + num(m.pose.position.y) +
            ",\"z\":" + num(m.pose.position.z) + "},\"pts\":" + jarr(m.points, [](const geometry_msgs::msg::Point & p) {return jxy(p.x, p.y);}) + "}";
          })));
      }
    }
  }
}
