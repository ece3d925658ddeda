#include "clusters.hpp"
static std::set<int> USED;
static void members(Cluster &c, const std::set<int> &m, const Net &n, const std::string &at) {
  auto ids = c.getSiteIdsInCluster(); auto ss = c.getSitesInCluster(); std::set<int> a(ids.begin(), ids.end()), b;
  REQUIRE(a == m && ids.size() == m.size(), at << ": " << ids.size() << " member ids, want " << m.size());
  REQUIRE(c.getNumberOfSitesInCluster() == (int)m.size(), at << ": number of sites");
  for (auto &s : ss) { b.insert(s.getId()); REQUIRE(s.getClusterId() == c.getId(), at << ": member " << s.getId() << " carries cluster id " << s.getClusterId() << " want " << c.getId());
    for (auto &e : n.at(s.getId())) REQUIRE(s.getRateToNeighbor(e.first) == e.second, at << ": rate of member " << s.getId()); }
  REQUIRE(b == m && ss.size() == m.size(), at << ": member sites");
  for (auto &e : n) REQUIRE(c.siteIsInCluster(e.first) == (m.count(e.first) == 1), at << ": is " << e.first << " in the cluster");
}
void run() {
  for (int k = 0; k < 200 * SCALE; ++k) {
    Case t(0, false, 4); Cluster &c = t.c; Cluster o; Conv oc = conv(o);
    REQUIRE(USED.insert(c.getId()).second && USED.insert(o.getId()).second, "cluster id used twice");
    std::set<int> a, b; size_t cut = irand(2, t.ids.size() - 2);
    members(c, a, t.net, "new");
    for (size_t i = 0; i < t.ids.size(); ++i) (i < cut ? a : b).insert(t.ids[i]);
    // every member of the second part needs a partner of its own to be a cluster
    std::vector<int> vb(b.begin(), b.end());
    for (size_t i = 1; i < vb.size(); ++i) { t.net[vb[i]][vb[0]] = crate(); t.net[vb[0]][vb[i]] = crate(); }
    t.say(" second part from " + str(cut) + " now" + show(t.net));
    std::vector<Site> v; std::set<int> sofar;
    for (int i : a) { if (irand(0, 1)) { Site s = mksite(t.net, i); c.addSite(s); REQUIRE(s.getClusterId() == c.getId(), "added site " << i << " is not marked"); sofar.insert(i); members(c, sofar, t.net, "addSite"); } else v.push_back(mksite(t.net, i)); }
    c.addSites(v); for (auto &s : v) REQUIRE(s.getClusterId() == c.getId(), "added site " << s.getId() << " is not marked");
    members(c, a, t.net, "addSites");
    for (int i : b) { Site s = mksite(t.net, i); o.addSite(s); }
    members(o, b, t.net, "other");
    if (k % 10 == 0) { int i = *a.begin(); Site s = mksite(t.net, i); REQUIRE(refused([&] { c.addSite(s); }), "member " << i << " added twice");
      std::vector<Site> two{mksite(t.net, *b.begin()), s}; REQUIRE(refused([&] { c.addSites(two); }), "member " << i << " added twice in bulk"); }
    bool upd = irand(0, 3); if (upd) c.updateProbabilitiesAndTimeConstant(); o.updateProbabilitiesAndTimeConstant();
    t.say(" migrate"); c.migrateSitesFrom(o);
    std::set<int> all = t.mem(); members(c, all, t.net, "merged"); members(o, std::set<int>(), t.net, "emptied");
    REQUIRE(o.getTimeConstant() == constants::unassigned_value, "the emptied cluster has time constant " << o.getTimeConstant());
    REQUIRE(o.getSiteIdsNeighboringCluster().empty(), "the emptied cluster has neighbors");
    if (k % 10 == 0) REQUIRE(refused([&] { o.getDwellTime(3); }) , "the emptied cluster hands out dwell times");
    Want w = want(t.net, all, t.cv);
    if (!w.doubtful) {
      for (int i : all) REQUIRE(close_(c.getProbabilityOfOccupyingInternalSite(i), w.prob[i]), "merged: probability of " << i);
      REQUIRE(close_(c.getTimeConstant(), w.tc), "merged: time constant " << c.getTimeConstant() << " want " << w.tc);
      REQUIRE(near_(c.getTimeIncrement(), c.getTimeConstant() / t.cv.res), "merged: time increment");
      auto nb = c.getSiteIdsNeighboringCluster(); std::set<int> s(nb.begin(), nb.end()), x; for (auto &e : w.exit) x.insert(e.first);
      REQUIRE(s == x && nb.size() == x.size(), "merged: neighbors");
    }
  }
}
