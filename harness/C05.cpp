#include "lattice.hpp"
void run() {
  lattices(8, 60, [](Lat &l) {
    for (int k = 0; k < 250; ++k) {
      int i = irand(0, l.total() - 1), j = irand(0, l.total() - 1), p[3], q[3];
      if (k < l.total()) j = k;
      l.pos(i, p); l.pos(j, q);
      long s = 0, direct = 0;
      for (int a = 0; a < 3; ++a) {
        int d = std::abs(p[a] - q[a]);
        direct += d * d;
        if (l.per[a]) d = std::min(d, l.d[a] - d);
        s += d * d;
      }
      double got = l.c.getSmallestDistance(i, j);
      REQUIRE(near_(got, std::sqrt((double)s) * l.a), "distance between " << i << " and " << j << " is " << got << " want " << std::sqrt((double)s) * l.a);
      REQUIRE(near_(l.c.getSmallestDistance(j, i), got), "symmetry for " << i << "," << j);
      REQUIRE(got <= std::sqrt((double)direct) * l.a * (1 + 1e-12), "not above direct distance " << i << "," << j);
    }
    for (int b : {-1, l.total(), -l.total()}) {
      REQUIRE(throws<std::invalid_argument>([&] { l.c.getSmallestDistance(b, 0); }), "first site " << b);
      REQUIRE(throws<std::invalid_argument>([&] { l.c.getSmallestDistance(0, b); }), "second site " << b);
    }
  });
}
