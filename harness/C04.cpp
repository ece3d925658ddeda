#include "lattice.hpp"
void run() {
  lattices(4, 25, [](Lat &l) {
    for (int k = 0; k < 3; ++k) {
      double cut;
      if (l.a == 1.0 && irand(0, 1)) cut = irand(0, 3);
      else { cut = drand(0, 3.2) * l.a; double r = cut / l.a; double q = r * r; if (std::fabs(q - std::round(q)) < 1e-3) cut += 0.01 * l.a; }
      int n = (int)std::floor(cut / l.a);
      auto m = l.c.getNeighborDistances(cut);
      std::ostringstream o; o << "cutoff " << cut;
      for (int i = 0; i < l.total(); ++i) {
        int p[3]; l.pos(i, p);
        std::map<int, long> want;
        for (int x = -n; x <= n; ++x) for (int y = -n; y <= n; ++y) for (int z = -n; z <= n; ++z) {
          long q = x * x + y * y + z * z;
          if (!(std::sqrt((double)q) * l.a <= cut)) continue;
          int t[3] = {p[0] + x, p[1] + y, p[2] + z}; bool in = true;
          for (int a = 0; a < 3; ++a) { if (l.per[a]) t[a] = emod(t[a], l.d[a]); else if (t[a] < 0 || t[a] >= l.d[a]) in = false; }
          if (!in) continue;
          int j = l.idx(t[0], t[1], t[2]);
          if (j == i) continue;
          if (!want.count(j) || q < want[j]) want[j] = q;
        }
        std::unordered_map<int, double> got;
        if (m.count(i)) got = m.at(i);
        REQUIRE(got.size() == want.size(), o.str() << ": site " << i << " has " << got.size() << " neighbors, want " << want.size());
        for (auto &e : want) {
          REQUIRE(got.count(e.first), o.str() << ": site " << i << " misses neighbor " << e.first);
          REQUIRE(near_(got[e.first], std::sqrt((double)e.second) * l.a), o.str() << ": distance " << i << " to " << e.first << " is " << got[e.first]);
          REQUIRE(m.count(e.first) && m.at(e.first).count(i) && near_(m.at(e.first).at(i), got[e.first]), o.str() << ": asymmetric " << i << "," << e.first);
        }
      }
      for (auto &e : m) REQUIRE(e.first >= 0 && e.first < l.total(), o.str() << ": unknown site " << e.first);
    }
  });
}
