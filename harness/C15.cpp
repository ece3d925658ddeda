#include "clusters.hpp"
void run() {
  for (int k = 0; k < 300 * SCALE; ++k) {
    bool none = k % 7 == 5 && k % 4 != 3; Case t(k % 4 == 3 ? irand(1, 2) : 0, none); t.fill(); Cluster &c = t.c;
    for (int r = 0; r < (none ? 1 : 2); ++r) {
      if (r) { t.cv = conv(c); t.say(" again with" + show(t.cv)); }
      c.updateProbabilitiesAndTimeConstant();
      Want w = want(t.net, t.mem(), t.cv); double tot = 0;
      for (int i : t.ids) {
        double p = c.getProbabilityOfOccupyingInternalSite(i); tot += p;
        REQUIRE(p > 0, "occupation probability of member " << i << " is " << p);
        if (!w.doubtful) REQUIRE(close_(p, w.prob[i]), "occupation probability of member " << i << " is " << p << " want " << w.prob[i]);
      }
      REQUIRE(std::fabs(tot - 1) < 1e-9, "occupation probabilities add up to " << tot);
    }
    if (k % 15 == 0) { int x = t.out[0]; REQUIRE(refused([&] { c.getProbabilityOfOccupyingInternalSite(x); }), "probability of the non-member " << x << " was answered"); }
  }
  for (int k = 0; k < 4; ++k) {
    Case t; Site s = mksite(t.net, t.ids[0]); t.c.addSite(s);
    REQUIRE(refused([&] { t.c.updateProbabilitiesAndTimeConstant(); }), "a cluster of one site was updated");
    REQUIRE(refused([&] { t.c.setConvergenceIterations(0); }) && refused([&] { t.c.setConvergenceTolerance(-0.5); }) && refused([&] { t.c.setResolution(1.5); }), "bad setting accepted");
  }
}
