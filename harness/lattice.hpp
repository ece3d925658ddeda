#ifndef VERIF_LATTICE_HPP
#define VERIF_LATTICE_HPP
#include "common.hpp"
#include "mythical/charge_transport/cuboid_lattice.hpp"
using namespace mythical::charge_transport;
typedef BoundarySetting BS;
static const BS PER = BS::Periodic, FIX = BS::Fixed;

struct Lat {
  int d[3];
  bool per[3];
  double a;
  Cuboid c;
  Lat(int L, int W, int H, double a_, bool x, bool y, bool z)
      : d{L, W, H}, per{x, y, z}, a(a_), c(L, W, H, a_, x ? PER : FIX, y ? PER : FIX, z ? PER : FIX) {
    std::ostringstream o;
    o << "lattice " << L << "x" << W << "x" << H << " spacing " << a_ << " periodic " << x << y << z;
    WHERE = o.str();
  }
  int total() const { return d[0] * d[1] * d[2]; }
  int idx(int x, int y, int z) const { return z * d[0] * d[1] + y * d[0] + x; }
  void pos(int i, int *p) const { p[0] = i % d[0]; p[1] = (i / d[0]) % d[1]; p[2] = i / (d[0] * d[1]); }
};
static int emod(int a, int b) { int r = a % b; return r < 0 ? r + b : r; }

template <class F>
static void lattices(int maxdim, int random, F f) {
  int dims[][3] = {{1,1,1},{2,3,4},{4,3,2},{3,2,4},{1,2,3},{3,1,1},{1,1,5},{2,2,2},{5,5,5},{1,4,1},{4,1,2}};
  for (auto &d : dims) {
    if (d[0] > maxdim || d[1] > maxdim || d[2] > maxdim) continue;
    for (int b = 0; b < 8; ++b) { Lat l(d[0], d[1], d[2], b % 2 ? 1.0 : 0.7, b & 1, b & 2, b & 4); f(l); }
  }
  for (int i = 0; i < random * SCALE; ++i) {
    Lat l(irand(1, maxdim), irand(1, maxdim), irand(1, maxdim), drand(0.2, 2.5), irand(0, 1), irand(0, 1), irand(0, 1));
    f(l);
  }
}
#endif
