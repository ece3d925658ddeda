#include "lattice.hpp"
void run() {
  typedef Cuboid::Plane P;
  lattices(5, 20, [](Lat &l) {
    P planes[3] = {P::YZ, P::XZ, P::XY};
    for (int a = 0; a < 3; ++a) {
      for (int v : {0, l.d[a] - 1, irand(0, l.d[a] - 1)}) {
        std::set<std::pair<int, int>> seen;
        int b = (a + 1) % 3, c = (a + 2) % 3;
        size_t want = (size_t)l.d[b] * l.d[c];
        for (int k = 0; k < (int)want * 40 + 20; ++k) {
          int i = l.c.getRandomSite(planes[a], v);
          REQUIRE(i >= 0 && i < l.total(), "random site " << i << " of plane normal to axis " << a << " at " << v);
          int p[3]; l.pos(i, p);
          REQUIRE(p[a] == v, "random site " << i << " has coordinate " << p[a] << " on axis " << a << ", asked for " << v);
          seen.insert({p[b], p[c]});
        }
        std::set<int> sb, sc;
        for (auto &s : seen) { sb.insert(s.first); sc.insert(s.second); }
        REQUIRE((int)sb.size() == l.d[b] && (int)sc.size() == l.d[c], "plane normal to axis " << a << " at " << v << " draws only " << sb.size() << "x" << sc.size() << " coordinates");
      }
      for (int v : {-1, l.d[a], l.d[a] + 5, -l.d[a], 1000})
        REQUIRE(throws<std::invalid_argument>([&] { l.c.getRandomSite(planes[a], v); }), "plane normal to axis " << a << " at " << v);
    }
  });
  // three and four argument lattices draw from their own axes too
  for (int k = 0; k < 10; ++k) {
    int L = irand(1, 4), W = irand(1, 4), H = irand(1, 4);
    Cuboid a(L, W, H), b(L, W, H, 2.0);
    std::ostringstream o; o << "lattice " << L << "," << W << "," << H; WHERE = o.str();
    for (Cuboid *c : {&a, &b}) {
      std::set<int> xs, ys, zs;
      for (int r = 0; r < 300; ++r) {
        int i = c->getRandomSite(P::XY, H - 1); xs.insert(c->getX(i)); ys.insert(c->getY(i)); REQUIRE(c->getZ(i) == H - 1, "plane");
        i = c->getRandomSite(P::YZ, L - 1); zs.insert(c->getZ(i)); REQUIRE(c->getX(i) == L - 1, "plane");
      }
      REQUIRE((int)xs.size() == L && (int)ys.size() == W && (int)zs.size() == H, "coverage of the axes");
    }
  }
}
