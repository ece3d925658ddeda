#include "lattice.hpp"
void run() {
  lattices(9, 80, [](Lat &l) {
    for (int k = 0; k < 120; ++k) {
      int v[3], w[3];
      for (int a = 0; a < 3; ++a) {
        if (l.per[a]) {
          switch (irand(0, 5)) {
            case 0: v[a] = irand(-3 * l.d[a], 3 * l.d[a]); break;
            case 1: v[a] = l.d[a] * irand(-5, 5); break;
            case 2: v[a] = l.d[a] * irand(-50, 50) - 1; break;
            case 3: v[a] = irand(-1000000, 1000000); break;
            case 4: v[a] = irand(0, 1) ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min(); break;
            default: v[a] = irand(0, l.d[a] - 1);
          }
          w[a] = emod(v[a], l.d[a]);
        } else v[a] = w[a] = irand(0, l.d[a] - 1);
      }
      int got = l.c.getIndex(v[0], v[1], v[2]);
      REQUIRE(got == l.idx(w[0], w[1], w[2]), "index of " << v[0] << "," << v[1] << "," << v[2] << " is " << got);
      REQUIRE(l.c.getIndex(std::vector<int>{v[0], v[1], v[2]}) == got, "vector form of " << v[0] << "," << v[1] << "," << v[2]);
    }
  });
}
