#include "lattice.hpp"
template <class F> static bool ia(F f) { return throws<std::invalid_argument>(f); }
void run() {
  lattices(9, 60, [](Lat &l) {
    Cuboid &c = l.c;
    REQUIRE(c.getLength() == l.d[0] && c.getWidth() == l.d[1] && c.getHeight() == l.d[2], "dimensions");
    REQUIRE(c.isXPeriodic() == l.per[0] && c.isYPeriodic() == l.per[1] && c.isZPeriodic() == l.per[2], "boundaries");
    REQUIRE(c.getLatticeSpacing() == l.a, "spacing");
    for (int i = 0; i < l.total(); ++i) {
      int p[3]; l.pos(i, p);
      std::vector<int> q = c.getPosition(i);
      REQUIRE(q.size() == 3, "position of index " << i);
      REQUIRE(q[0] == p[0] && q[1] == p[1] && q[2] == p[2], "position of index " << i << " is " << q[0] << "," << q[1] << "," << q[2]);
      REQUIRE(c.getX(i) == p[0] && c.getY(i) == p[1] && c.getZ(i) == p[2], "per-axis position of index " << i);
      REQUIRE(c.getIndex(p[0], p[1], p[2]) == i, "index of the position of " << i);
      REQUIRE(c.getIndex(q) == i, "index of the position vector of " << i);
    }
    std::vector<int> bad = {-1, -2, -l.total(), l.total(), l.total() + 1, 2 * l.total(), std::numeric_limits<int>::max(), std::numeric_limits<int>::min()};
    for (int b : bad) {
      REQUIRE(ia([&] { c.getPosition(b); }), "position of index " << b);
      REQUIRE(ia([&] { c.getX(b); }) && ia([&] { c.getY(b); }) && ia([&] { c.getZ(b); }), "per-axis position of index " << b);
      REQUIRE(ia([&] { c.getNeighbors(b, 1.0); }), "neighbors of index " << b);
      REQUIRE(ia([&] { c.getSmallestDistance(b, 0); }) && ia([&] { c.getSmallestDistance(0, b); }), "distance with index " << b);
    }
    for (int ax = 0; ax < 3; ++ax) {
      if (l.per[ax]) continue;
      for (int v : {-1, l.d[ax], l.d[ax] + 3, -l.d[ax], 100000, -100000}) {
        int p[3] = {0, 0, 0}; p[ax] = v;
        REQUIRE(ia([&] { c.getIndex(p[0], p[1], p[2]); }), "index of position with axis " << ax << " = " << v);
        REQUIRE(ia([&] { c.getIndex(std::vector<int>{p[0], p[1], p[2]}); }), "index of position vector with axis " << ax << " = " << v);
      }
    }
    for (size_t n : {0u, 1u, 2u, 4u, 5u}) REQUIRE(ia([&] { c.getIndex(std::vector<int>(n, 0)); }), "position vector of size " << n);
  });
  WHERE = "constructors";
  REQUIRE(ia([] { Cuboid c(-1, 2, 3); }) && ia([] { Cuboid c(1, -2, 3); }) && ia([] { Cuboid c(1, 2, -3); }), "negative dimension");
  REQUIRE(ia([] { Cuboid c(-1, 2, 3, 1.0); }) && ia([] { Cuboid c(1, -2, 3, 1.0); }) && ia([] { Cuboid c(1, 2, -3, 1.0); }), "negative dimension");
  REQUIRE(ia([] { Cuboid c(-1, -2, 3, 1.0, PER, FIX, PER); }) && ia([] { Cuboid c(-1, 2, 3, 1.0, PER, FIX, PER); }) && ia([] { Cuboid c(1, -2, 3, 1.0, PER, FIX, FIX); }) && ia([] { Cuboid c(1, 2, -3, 1.0, FIX, FIX, PER); }), "negative dimension");
  for (int k = 0; k < 20; ++k) {
    int L = irand(1, 6), W = irand(1, 6), H = irand(1, 6);
    Cuboid a(L, W, H), b(L, W, H, 0.5);
    std::ostringstream o; o << "three/four argument lattice " << L << "," << W << "," << H; WHERE = o.str();
    REQUIRE(a.getLatticeSpacing() == 1.0 && b.getLatticeSpacing() == 0.5, "spacing");
    REQUIRE(!a.isXPeriodic() && !a.isYPeriodic() && !a.isZPeriodic() && !b.isXPeriodic() && !b.isYPeriodic() && !b.isZPeriodic(), "fixed by default");
    REQUIRE(a.getIndex(L - 1, W - 1, H - 1) == L * W * H - 1 && b.getIndex(L - 1, W - 1, H - 1) == L * W * H - 1, "last site");
    REQUIRE(a.getPosition(L * W * H - 1) == (std::vector<int>{L - 1, W - 1, H - 1}), "last site");
    REQUIRE(ia([&] { a.getIndex(L, 0, 0); }) && ia([&] { b.getIndex(0, 0, H); }) && ia([&] { b.getIndex(0, W, 0); }), "out of range");
  }
}
