#include "clusters.hpp"
void run() {
  for (int k = 0; k < 150 * SCALE; ++k) {
    Case t; t.fill(); Cluster &c = t.c; c.updateProbabilitiesAndTimeConstant(); c.setRandomSeed(11 + k);
    TopologyFeature &f = c; std::map<int, bool> occ; int visits = f.getVisitFrequency();
    REQUIRE(visits == 0, "a new cluster has visits");
    std::map<int, double> rest; int drawn = 0; auto u = draws(11 + k, 60); double tc = c.getTimeConstant(), inc = c.getTimeIncrement();
    for (int i : t.ids) occ[i] = false;
    for (int s = irand(3, 25); s > 0; --s) {
      int i = t.ids[irand(0, t.ids.size() - 1)], w = irand(0, 3);
      switch (irand(0, 3)) {
        case 0: t.say(" occupy(" + str(i) + ")"); c.occupy(i); occ[i] = true; ++visits; break;
        case 1: if (!occ[i]) break; t.say(" vacate(" + str(i) + ")"); c.vacate(i); occ[i] = false; break;
        case 2: if (!occ[i]) { c.occupy(i); occ[i] = true; ++visits; t.say(" occupy(" + str(i) + ")"); }
          t.say(" removeWalker(" + str(w) + "," + str(i) + ")"); c.removeWalker(w, i); occ[i] = false; rest.erase(w); break;
        default: {
          if (rest.count(w) && rest[w] <= 0) break;
          if (!rest.count(w)) { if (drawn > 50) break; rest[w] = -std::log(u[drawn++]) * tc; }
          t.say(" getDwellTime(" + str(w) + ")");
          double d = c.getDwellTime(w), x = std::min(rest[w], inc);
          REQUIRE(near_(d, x, 1e-7, 1e-9 * tc), "walker " << w << " got " << d << " want " << x);
          rest[w] -= inc; if (std::fabs(rest[w]) < 1e-9 * tc) rest[w] = rest[w] > 0 ? rest[w] : 0; }
      }
      for (int j : t.ids) REQUIRE(c.isOccupied(j) == occ[j], "member " << j << " reported " << c.isOccupied(j) << " should be " << occ[j]);
      REQUIRE(f.getVisitFrequency() == visits, "cluster visits " << f.getVisitFrequency() << " want " << visits);
      REQUIRE(c.getNumberOfSitesInCluster() == (int)t.ids.size(), "number of members changed");
    }
    if (k % 10 == 0) {
      int x = t.out[0];
      REQUIRE(refused([&] { c.isOccupied(x); }), "occupancy of the non-member " << x << " was answered");
      REQUIRE(refused([&] { c.occupy(x); }), "the non-member " << x << " was occupied");
    }
  }
}
