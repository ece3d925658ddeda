#include "clusters.hpp"
void run() {
  for (int k = 0; k < 300 * SCALE; ++k) {
    bool none = k % 7 == 5; Case t(!none && k % 4 == 3 ? irand(1, 2) : 0, none); t.fill(); Cluster &c = t.c;
    for (int r = 0; r < 3; ++r) {
      if (r) { t.cv = conv(c); t.say(" again with" + show(t.cv)); }
      if (none && r) { c = Cluster(); c.setConvergenceMethod(t.cv.m); c.setConvergenceIterations(t.cv.it); c.setConvergenceTolerance(t.cv.tol); c.setResolution(t.cv.res); t.fill(); }
      c.updateProbabilitiesAndTimeConstant();
      Want w = want(t.net, t.mem(), t.cv); double tc = c.getTimeConstant();
      REQUIRE(near_(c.getFastestRateOffCluster(), w.fast), "fastest rate off the cluster " << c.getFastestRateOffCluster() << " want " << w.fast);
      if (!w.defined) { REQUIRE(tc == constants::unassigned_value, "no way out but time constant " << tc); REQUIRE(refused([&] { c.getDwellTime(1); }), "no way out but a dwell time"); }
      else { REQUIRE(tc > 0, "time constant " << tc); if (!w.doubtful) REQUIRE(close_(tc, w.tc), "time constant " << tc << " want " << w.tc); }
      REQUIRE(c.getResolution() == t.cv.res && near_(c.getTimeIncrement(), tc / t.cv.res), "after the update: increment " << c.getTimeIncrement() << " time constant " << tc << " resolution " << c.getResolution());
      t.cv.res = drand(2, 60); t.say(" setResolution(" + str(t.cv.res) + ")"); c.setResolution(t.cv.res);
      REQUIRE(c.getResolution() == t.cv.res && near_(c.getTimeIncrement(), tc / t.cv.res), "after setting the resolution: increment " << c.getTimeIncrement() << " time constant " << tc);
      REQUIRE(c.getTimeConstant() == tc, "setting the resolution changed the time constant");
    }
  }
}
