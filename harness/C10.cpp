#include "sites.hpp"
#include <list>
void run() {
  for (int k = 0; k < 400 * SCALE; ++k) {
    Site s; s.setId(irand(0, 9));
    std::list<RM> maps; std::list<double> vals;
    std::map<int, double> m;
    std::ostringstream o;
    int n = irand(1, 10);
    for (int t = 0; t < n; ++t) {
      int op = irand(0, 2);
      if (op == 0) {
        maps.emplace_back(); RM &r = maps.back();
        int c = irand(1, 6);
        o << " set{";
        for (int i = 0; i < c; ++i) r[sid()] = rate();
        for (auto &e : r) { m[e.first] = e.second; o << e.first << ":" << e.second << " "; }
        o << "}"; WHERE = o.str();
        s.setRatesToNeighbors(r);
      } else {
        int id = sid();
        if (op == 1 && m.count(id)) continue;
        vals.push_back(rate());
        m[id] = vals.back();
        o << (op == 1 ? " add(" : " reset(") << id << "," << vals.back() << ")"; WHERE = o.str();
        if (op == 1) s.addNeighRate(std::pair<int, double *>(id, &vals.back()));
        else s.resetNeighRate(std::pair<int, double *>(id, &vals.back()));
      }
      check_site(s, m, "after the last change");
    }
    if (k % 40 == 0 && !m.empty()) {
      int in = m.begin()->first;
      double v = 2.0;
      REQUIRE(refused([&] { RM e; s.setRatesToNeighbors(e); }), "empty rate set accepted");
      REQUIRE(refused([&] { RM e; e[1] = 1.0; e[2] = 0.0; s.setRatesToNeighbors(e); }), "zero rate accepted");
      REQUIRE(refused([&] { RM e; e[1] = 0.0; s.setRatesToNeighbors(e); }), "zero rate accepted");
      REQUIRE(refused([&] { s.addNeighRate(std::pair<int, double *>(in, &v)); }), "neighbor " << in << " added twice");
      REQUIRE(!refused([&] { s.resetNeighRate(std::pair<int, double *>(in, &v)); }), "rate of neighbor " << in << " cannot be replaced");
      REQUIRE(refused([&] { s.getRateToNeighbor(-77); }), "rate to a non-neighbor");
      REQUIRE(refused([&] { s.getProbabilityOfHoppingToNeighboringSite(-77); }), "probability of a non-neighbor");
    }
  }
  // many neighbors
  Site s; RM r; std::map<int, double> m;
  for (int i = 0; i < 300; ++i) { r[i * 3] = rate(); m[i * 3] = r[i * 3]; }
  WHERE = "300 neighbors";
  s.setRatesToNeighbors(r);
  check_site(s, m, "after set");
}
