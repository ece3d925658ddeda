#include "clusters.hpp"
static void dist(Case &t, Cluster &c, const Want &w, const std::string &at) {
  auto nb = c.getSiteIdsNeighboringCluster(); std::set<int> s(nb.begin(), nb.end()), x; double tot = 0;
  for (auto &e : w.exit) x.insert(e.first);
  REQUIRE(s == x && s.size() == nb.size(), at << ": neighbors of the cluster, " << nb.size() << " listed, " << x.size() << " exist");
  if (w.doubtful) return;
  for (int i : nb) {
    double p = c.getProbabilityOfHoppingToNeighborOfCluster(i); tot += p;
    REQUIRE(close_(p, w.exit.at(i)), at << ": probability of leaving to " << i << " is " << p << " want " << w.exit.at(i));
  }
  if (nb.size()) REQUIRE(std::fabs(tot - 1) < 1e-9, at << ": exit probabilities add up to " << tot);
  if (!w.defined) return;
  unsigned long seed = irand(1, 1000000); c.setRandomSeed(seed); auto u = draws(seed, 400); int d = 0, walker = irand(0, 5);
  for (int j = 0; j < 25 && d < 390; ++j) {
    c.getDwellTime(walker); double left = -std::log(u[d++]) * c.getTimeConstant() - c.getTimeIncrement();
    for (int n = 0; d < 390; ++n) {
      int i = c.pickNewSiteId(walker); double v = u[d++];
      if (std::fabs(left) < 1e-9 * c.getTimeConstant()) return;
      auto &dd = left > 0 ? w.inner : w.exit; auto p = picks(dd, v);
      REQUIRE(p.count(i), at << ": " << (left > 0 ? "internal" : "exit") << " pick for u=" << v << " is " << i << " seed " << seed);
      if (left <= 0) break;
      if (n > 6) { int wn = walker; c.removeWalker(wn, t.ids[0]); break; }
      c.getDwellTime(walker); left -= c.getTimeIncrement();
    }
  }
}
void run() {
  for (int k = 0; k < 220 * SCALE; ++k) {
    bool none = k % 9 == 4; Case t(0, none, 3); Cluster &c = t.c; std::set<int> mem;
    // part of the members first, then the rest: the neighbors change with every update
    std::vector<int> order(t.ids); size_t first = irand(2, none ? order.size() - 1 : order.size());
    for (size_t i = 0; i < first; ++i) { Site s = mksite(t.net, order[i]); c.addSite(s); mem.insert(order[i]); }
    c.updateProbabilitiesAndTimeConstant(); dist(t, c, want(t.net, mem, t.cv), "first update");
    for (size_t i = first; i < order.size(); ++i) { Site s = mksite(t.net, order[i]); c.addSite(s); mem.insert(order[i]); }
    t.cv = conv(c); t.say(" first " + str(first) + " members, then all with" + show(t.cv)); if (none) { c = Cluster(); conv(c); c.setConvergenceMethod(t.cv.m); c.setConvergenceIterations(t.cv.it); c.setConvergenceTolerance(t.cv.tol); c.setResolution(t.cv.res); for (int i : order) { Site s = mksite(t.net, i); c.addSite(s); } }
    for (int r = none ? 1 : irand(1, 3); r > 0; --r) c.updateProbabilitiesAndTimeConstant();
    dist(t, c, want(t.net, mem, t.cv), "later updates");
    if (k % 15 == 0) { int x = t.ids[0]; REQUIRE(refused([&] { c.getProbabilityOfHoppingToNeighborOfCluster(x); }), "probability of leaving to the member " << x << " was answered"); }
  }
}
