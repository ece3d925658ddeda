#include "clusters.hpp"
// visits of the cluster since the last look are shared out to the members
struct M { std::map<int, double> cnt; int fresh = 0; bool sure = true; };
static void look(M &m, const Want &w, const Conv &v) {
  if (!m.fresh) return;
  for (auto &e : m.cnt) { double x = m.fresh * w.prob.at(e.first) * w.tau.at(e.first) * w.tc * w.in.at(e.first) / v.res; if (std::fabs(x - std::floor(x) - 0.5) < 1e-6) m.sure = false; e.second += std::round(x); }
  m.fresh = 0;
}
static void compare(Cluster &c, M &m, const Want &w, const Conv &v, const std::string &at) {
  std::vector<int> ids; for (auto &e : m.cnt) ids.push_back(e.first);
  std::shuffle(ids.begin(), ids.end(), RNG); look(m, w, v); if (!m.sure) return;
  for (int r = 0; r < 2; ++r) for (int i : ids) REQUIRE(c.getVisitFrequency(i) == (int)m.cnt[i], at << ": visits of " << i << " are " << c.getVisitFrequency(i) << " want " << m.cnt[i]);
}
static bool steps(Case &t, Cluster &c, M &m, const Want &w, const Conv &v, int n) {
  std::vector<int> ids; for (auto &e : m.cnt) ids.push_back(e.first);
  for (; n > 0; --n) {
    int i = ids[irand(0, ids.size() - 1)];
    switch (irand(0, 2)) {
      case 0: { int x = irand(1, 40); t.say(" visit " + str(i) + " x" + str(x)); for (int j = 0; j < x; ++j) { c.occupy(i); if (irand(0, 1)) c.vacate(i); } m.fresh += x; break; }
      case 1: { int x = irand(0, 200); t.say(" setVisitFrequency(" + str(x) + "," + str(i) + ")"); c.setVisitFrequency(x, i); m.cnt[i] = x; break; }
      default: t.say(" look"); compare(c, m, w, v, "query"); }
    if (!m.sure) return false;
  }
  return true;
}
void run() {
  for (int k = 0; k < 250 * SCALE; ++k) {
    Case t(0, false, 4); Cluster &c = t.c; Cluster o; Conv oc = conv(o); std::set<int> a, b; size_t cut = irand(2, t.ids.size() - 2);
    for (size_t i = 0; i < t.ids.size(); ++i) (i < cut ? a : b).insert(t.ids[i]);
    std::vector<int> va(a.begin(), a.end()), vb(b.begin(), b.end());
    for (auto *p : {&va, &vb}) for (size_t i = 1; i < p->size(); ++i) { t.net[(*p)[i]][(*p)[0]] = crate(); t.net[(*p)[0]][(*p)[i]] = crate(); }
    t.net[va[0]][t.out[0]] = crate(); t.net[vb[0]][t.out[0]] = crate();
    t.say(" first part " + str(cut) + " now" + show(t.net) + " other" + show(oc));
    for (int i : a) { Site s = mksite(t.net, i); c.addSite(s); } for (int i : b) { Site s = mksite(t.net, i); o.addSite(s); }
    c.updateProbabilitiesAndTimeConstant(); o.updateProbabilitiesAndTimeConstant();
    Want wa = want(t.net, a, t.cv), wb = want(t.net, b, oc); if (wa.doubtful || wb.doubtful) continue;
    M ma, mb; for (int i : a) ma.cnt[i] = 0; for (int i : b) mb.cnt[i] = 0;
    compare(c, ma, wa, t.cv, "new");
    if (!steps(t, c, ma, wa, t.cv, irand(1, 8)) || !steps(t, o, mb, wb, oc, irand(0, 6))) continue;
    int kind = irand(0, 2);
    if (kind == 0) { look(ma, wa, t.cv); if (!ma.sure) continue; t.say(" update"); c.updateProbabilitiesAndTimeConstant(); }
    else if (kind == 1) { look(ma, wa, t.cv); if (!ma.sure) continue; t.say(" the other sites are added, update"); for (int i : b) { Site s = mksite(t.net, i); c.addSite(s); ma.cnt[i] = 0; } c.updateProbabilitiesAndTimeConstant(); wa = want(t.net, t.mem(), t.cv); }
    else { look(ma, wa, t.cv); look(mb, wb, oc); if (!ma.sure || !mb.sure) continue; t.say(" migrate"); c.migrateSitesFrom(o); for (auto &e : mb.cnt) ma.cnt[e.first] = e.second; wa = want(t.net, t.mem(), t.cv);
      if (k % 5 == 0) { int i = *b.begin(); REQUIRE(refused([&] { o.getVisitFrequency(i); }), "the emptied cluster answers for " << i); } }
    if (wa.doubtful) continue;
    compare(c, ma, wa, t.cv, "afterwards");
    steps(t, c, ma, wa, t.cv, irand(1, 6)); if (ma.sure) compare(c, ma, wa, t.cv, "at the end");
    if (k % 12 == 0) { int x = t.out[0]; REQUIRE(refused([&] { c.getVisitFrequency(x); }) && refused([&] { c.setVisitFrequency(3, x); }), "the non-member " << x << " was accepted"); }
  }
}
