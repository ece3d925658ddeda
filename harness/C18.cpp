#include "clusters.hpp"
void run() {
  for (int k = 0; k < 200 * SCALE; ++k) {
    Case t; t.fill(); Cluster &c = t.c; c.updateProbabilitiesAndTimeConstant();
    auto nb = c.getSiteIdsNeighboringCluster(); std::set<int> ex(nb.begin(), nb.end()), mem = t.mem();
    unsigned long seed = irand(1, 1000000); c.setRandomSeed(seed); auto u = draws(seed, 700); int d = 0;
    double tc = c.getTimeConstant(), inc = c.getTimeIncrement(), eps = 1e-8 * tc;
    std::map<int, double> left, drawn, got; t.say(" seed " + str(seed));
    for (int s = 0; s < 60 && d < 690; ++s) {
      int w = irand(0, 2) * 7 - 7;
      bool fresh = !left.count(w);
      if (fresh) { left[w] = drawn[w] = -std::log(u[d++]) * tc; got[w] = 0; }
      bool last = left[w] <= inc; if (std::fabs(left[w] - inc) < eps) break;
      t.say(" getDwellTime(" + str(w) + ")");
      double x = c.getDwellTime(w); got[w] += x;
      REQUIRE(near_(x, std::min(left[w], inc), 1e-7, eps), "walker " << w << " got " << x << " of the remaining " << left[w] << " increment " << inc);
      left[w] -= inc;
      if (last) REQUIRE(near_(got[w], drawn[w], 1e-7, eps), "pieces of walker " << w << " add up to " << got[w] << " drawn " << drawn[w]);
      if (!last && irand(0, 3) == 0) continue;   // another walker comes in between
      int i = c.pickNewSiteId(w); ++d; t.say(" pick=" + str(i));
      if (last) { REQUIRE(ex.count(i), "walker " << w << " used up its time but picked " << i); left.erase(w);
        if (irand(0, 6) == 0) REQUIRE(refused([&] { c.pickNewSiteId(w); }), "walker " << w << " was not forgotten"); }
      else REQUIRE(mem.count(i), "walker " << w << " has time left but picked " << i);
    }
  }
}
