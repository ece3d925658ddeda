#include "sites.hpp"
void run() {
  for (int k = 0; k < 800 * SCALE; ++k) {
    Site s; RM r; int n = irand(1, 6);
    for (int i = 0; i < n; ++i) r[i] = rate();
    unsigned long seed = irand(0, 1000000);
    double sum = 0; for (auto &e : r) sum += e.second;
    std::ostringstream o; o << "seed " << seed << " sum of rates " << sum; WHERE = o.str();
    s.setRatesToNeighbors(r);
    int occ = irand(0, 2), vis = 0;
    for (int i = 0; i < occ; ++i) { s.occupy(i); ++vis; }
    if (irand(0, 1)) s.setClusterId(irand(0, 4));
    o << " walkers " << occ; WHERE = o.str();
    s.setRandomSeed(seed);
    std::vector<double> u = draws(seed, 10);
    for (int i = 0; i < 10; ++i) {
      double d = s.getDwellTime(irand(-3, 3)), want = -std::log(u[i]) / sum;
      REQUIRE(near_(d, want), "dwell time " << d << " want " << want << " u=" << u[i]);
      REQUIRE(d >= 0, "dwell time " << d);
      REQUIRE(near_(s.getTimeConstant(), 1.0 / sum), "time constant changed");
    }
    REQUIRE(s.isOccupied() == (occ > 0) && s.getVisitFrequency() == vis, "drawing changed the occupancy or visits");
    s.setRandomSeed(seed);
    REQUIRE(near_(s.getDwellTime(0), -std::log(u[0]) / sum), "re-seeding reproduces the sequence");
    double v = rate(); s.addNeighRate(std::pair<int, double *>(n + 1, &v));
    s.setRandomSeed(seed);
    REQUIRE(near_(s.getDwellTime(0), -std::log(u[0]) / (sum + v)), "dwell time after a rate change");
  }
}
