#include "lattice.hpp"
typedef std::multiset<std::pair<int, long>> MS;  // id, squared displacement
void run() {
  lattices(5, 40, [](Lat &l) {
    for (int k = 0; k < 6; ++k) {
      int i = irand(0, l.total() - 1), p[3];
      l.pos(i, p);
      // keep away from the floating point edge of the cutoff except for exact multiples on unit spacing
      double cut;
      if (l.a == 1.0 && irand(0, 1)) cut = irand(0, 3);
      else { cut = drand(0, 3.4) * l.a; double r = cut / l.a; double q = r * r; if (std::fabs(q - std::round(q)) < 1e-3) cut += 0.01 * l.a; }
      int n = (int)std::floor(cut / l.a);
      MS want; std::multiset<int> wid;
      for (int x = -n - 1; x <= n + 1; ++x) for (int y = -n - 1; y <= n + 1; ++y) for (int z = -n - 1; z <= n + 1; ++z) {
        long q = x * x + y * y + z * z;
        if (!(std::sqrt((double)q) * l.a <= cut)) continue;
        int t[3] = {p[0] + x, p[1] + y, p[2] + z};
        bool in = true;
        for (int a = 0; a < 3; ++a) { if (l.per[a]) t[a] = emod(t[a], l.d[a]); else if (t[a] < 0 || t[a] >= l.d[a]) in = false; }
        if (!in) continue;
        int j = l.idx(t[0], t[1], t[2]);
        if (j == i) continue;
        want.insert({j, q}); wid.insert(j);
      }
      std::ostringstream o; o << "site " << i << " cutoff " << cut;
      std::vector<int> ids = l.c.getNeighbors(i, cut);
      REQUIRE(std::multiset<int>(ids.begin(), ids.end()) == wid, o.str() << ": neighbor ids, got " << ids.size() << " want " << wid.size());
      for (int form = 0; form < 2; ++form) {
        auto v = form ? l.c.getNeighborDistances(std::vector<int>{p[0], p[1], p[2]}, cut) : l.c.getNeighborDistances(i, cut);
        MS got;
        for (auto &e : v) {
          double q = e.second / l.a; q *= q;
          REQUIRE(std::fabs(q - std::round(q)) < 1e-6, o.str() << ": distance " << e.second << " to " << e.first);
          REQUIRE(e.second <= cut + 1e-12, o.str() << ": distance " << e.second << " beyond the cutoff");
          got.insert({e.first, std::lround(q)});
        }
        REQUIRE(got == want, o.str() << ": neighbor distances form " << form << ", got " << got.size() << " entries, want " << want.size());
      }
    }
    int T = l.total();
    for (int b : {-1, T, T + 7}) {
      REQUIRE(throws<std::invalid_argument>([&] { l.c.getNeighbors(b, 1.0); }), "neighbors of " << b);
      REQUIRE(throws<std::invalid_argument>([&] { l.c.getNeighborDistances(b, 1.0); }), "neighbor distances of " << b);
    }
    for (size_t n : {0u, 2u, 4u}) REQUIRE(throws<std::invalid_argument>([&] { l.c.getNeighborDistances(std::vector<int>(n, 0), 1.0); }), "position of size " << n);
    for (int a = 0; a < 3; ++a) for (int v : {-1, l.d[a]}) {
      std::vector<int> p(3, 0); p[a] = v;
      REQUIRE(throws<std::invalid_argument>([&] { l.c.getNeighborDistances(p, 1.0); }), "position with axis " << a << " = " << v);
    }
  });
}
