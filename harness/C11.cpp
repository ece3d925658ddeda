#include "sites.hpp"
void run() {
  for (int k = 0; k < 500 * SCALE; ++k) {
    Site s; RM r; int n = irand(1, 8);
    std::ostringstream o; o.precision(17);
    unsigned long seed = irand(0, 1000000);
    std::vector<double> u = draws(seed, 40);
    if (k % 5 == 0) { // a boundary of the distribution exactly at a random number
      double b = u[0];
      if (b < 0.5) { s.setRandomSeed(seed); }
      r.clear(); r[1] = b; r[2] = 1 - b;
    } else for (int i = 0; i < n; ++i) r[sid()] = rate();
    o << "seed " << seed << " rates";
    for (auto &e : r) o << " " << e.first << ":" << e.second;
    WHERE = o.str();
    s.setRatesToNeighbors(r);
    int occ = irand(0, 2), vis = 0;
    for (int i = 0; i < occ; ++i) { s.occupy(i); ++vis; }
    if (irand(0, 1)) s.setClusterId(irand(0, 4));
    o << " walkers " << occ; WHERE = o.str();
    s.setRandomSeed(seed);
    auto pr = s.getProbabilitiesAndIdsOfNeighbors();
    for (int i = 0; i < 40; ++i) {
      int got = (i % 2) ? s.pickNewSiteId(7) : s.pickNewSiteId();
      double c = 0; int want = -1;
      for (auto &e : pr) { c += e.second; if (u[i] < c) { want = e.first; break; } }
      if (want == -1) continue;  // rounding of the last boundary
      REQUIRE(r.count(got), "pick " << i << " returned " << got << " which is no neighbor, u=" << u[i]);
      REQUIRE(got == want, "pick " << i << " returned " << got << " for u=" << u[i] << ", the interval belongs to " << want);
    }
    std::map<int, double> m(r.begin(), r.end());
    check_site(s, m, "after picking");
    REQUIRE(s.isOccupied() == (occ > 0) && s.getVisitFrequency() == vis, "picking changed the occupancy or visits");
  }
}
