#include "clusters.hpp"
#include "libmythical/cluster_container.hpp"
typedef std::invalid_argument IA;
struct Mdl { std::set<int> mem, exits; double tc, fast, res, inc; int occ, visits; };
static void check(Cluster_Container &c, std::map<int, Mdl> &m, const std::string &at) {
  REQUIRE(c.size() == m.size(), at << ": size " << c.size() << " want " << m.size());
  auto ids = c.getClusterIds(); std::set<int> w, g(ids.begin(), ids.end()); for (auto &e : m) w.insert(e.first);
  REQUIRE(g == w && ids.size() == w.size(), at << ": cluster ids");
  auto res = c.getResolutionOfClusters(); auto inc = c.getTimeIncrementOfClusters(); auto sites = c.getSiteIdsOfClusters();
  REQUIRE(res.size() == m.size() && inc.size() == m.size() && sites.size() == m.size(), at << ": overviews have " << res.size() << "," << inc.size() << "," << sites.size() << " entries");
  for (auto &e : m) {
    int i = e.first; Mdl &d = e.second;
    REQUIRE(c.exist(i) && c.getCluster(i).getId() == i, at << ": cluster " << i << " is found");
    REQUIRE(res.count(i) && res[i] == d.res && inc.count(i) && inc[i] == d.inc, at << ": overview of resolution and increment of " << i);
    REQUIRE(sites.count(i) && sites[i].size() == d.mem.size() && std::set<int>(sites[i].begin(), sites[i].end()) == d.mem, at << ": overview of the sites of " << i);
    Cluster &k = c.getCluster(i); auto ss = k.getSiteIdsInCluster();
    REQUIRE(std::set<int>(ss.begin(), ss.end()) == d.mem && k.getResolution() == d.res && k.getTimeIncrement() == d.inc, at << ": contents of " << i);
    REQUIRE(c.isOccupied(i) == (d.occ > 0), at << ": occupancy of " << i << " is " << c.isOccupied(i) << " after " << d.occ);
    REQUIRE(static_cast<TopologyFeature &>(k).getVisitFrequency() == d.visits, at << ": visits of " << i);
    REQUIRE(c.getTimeConstant(i) == d.tc && c.getFastestRateOffCluster(i) == d.fast, at << ": time constant or fastest rate of " << i);
    auto nb = c.getSiteIdsOfNeighbors(i);
    REQUIRE(nb.size() == d.exits.size() && std::set<int>(nb.begin(), nb.end()) == d.exits, at << ": neighboring sites of " << i);
  }
  for (int u : {-3, 9999999}) {
    REQUIRE(!c.exist(u), at << ": " << u << " exists");
    REQUIRE(throws<IA>([&] { c.getCluster(u); }) && throws<IA>([&] { c.isOccupied(u); }) && throws<IA>([&] { c.occupy(u); }) && throws<IA>([&] { c.vacate(u); }), at << ": unknown cluster accepted");
    REQUIRE(throws<IA>([&] { c.getDwellTime(1, u); }) && throws<IA>([&] { c.getTimeConstant(u); }) && throws<IA>([&] { c.getFastestRateOffCluster(u); }) && throws<IA>([&] { c.getSiteIdsOfNeighbors(u); }), at << ": unknown cluster accepted");
  }
  REQUIRE(c.size() == m.size(), at << ": queries changed the size");
}
static Cluster make(Mdl &d, std::string &text) {
  Case t; t.fill(); if (irand(0, 4)) t.c.updateProbabilitiesAndTimeConstant(); else { t.c = Cluster(); conv(t.c); }
  Cluster &c = t.c; auto a = c.getSiteIdsInCluster(), b = c.getSiteIdsNeighboringCluster();
  d.mem = std::set<int>(a.begin(), a.end()); d.exits = std::set<int>(b.begin(), b.end()); d.tc = c.getTimeConstant(); d.fast = c.getFastestRateOffCluster();
  d.res = c.getResolution(); d.inc = c.getTimeIncrement(); d.occ = d.visits = 0; text += "cluster " + str(c.getId()) + " of " + str(d.mem.size()) + " sites;";
  if (irand(0, 2) == 0) { c.occupy(); d.occ = 1; d.visits = 1; text += " occupied;"; }
  return c;
}
void run() {
  static std::list<std::list<RM>> keep;
  for (int k = 0; k < 60 * SCALE; ++k) {
    Cluster_Container c; std::map<int, Mdl> m; std::string text; std::vector<int> gone;
    check(c, m, "new");
    for (int s = irand(1, 14); s > 0; --s) {
      int pickd = m.empty() ? -1 : std::next(m.begin(), irand(0, m.size() - 1))->first;
      switch (irand(0, 6)) {
        case 0: case 1: { Mdl d; Cluster x = make(d, text); keep.emplace_back(); keep.back().swap(STORE);
          text += " addCluster;"; WHERE = text; c.addCluster(x); m[x.getId()] = d; REQUIRE(throws<IA>([&] { c.addCluster(x); }), "cluster added twice"); break; }
        case 2: { std::vector<Cluster> v; for (int n = irand(0, 3); n > 0; --n) { Mdl d; v.push_back(make(d, text)); keep.emplace_back(); keep.back().swap(STORE); m[v.back().getId()] = d; }
          text += " addClusters(" + str(v.size()) + ");"; WHERE = text; c.addClusters(v); if (v.size()) REQUIRE(throws<IA>([&] { c.addClusters(v); }), "clusters added twice"); break; }
        case 3: { int i = irand(0, 3) ? pickd : 8888888; text += " erase(" + str(i) + ");"; WHERE = text; c.erase(i); if (m.erase(i)) { gone.push_back(i); REQUIRE(throws<IA>([&] { c.getCluster(i); }), "an erased cluster is found"); } break; }
        case 4: if (pickd >= 0) { text += " occupy(" + str(pickd) + ");"; WHERE = text; c.occupy(pickd); ++m[pickd].occ; ++m[pickd].visits; } break;
        case 5: if (pickd >= 0) { text += " vacate(" + str(pickd) + ");"; WHERE = text; c.vacate(pickd); --m[pickd].occ; } break;
        default: if (pickd >= 0 && m[pickd].exits.size()) {
          text += " getDwellTime(" + str(pickd) + ");"; WHERE = text; Cluster &x = c.getCluster(pickd); x.setRandomSeed(9 + s); int w = 1000 + s + 100 * k; double tc = m[pickd].tc, a = -std::log(draws(9 + s, 1)[0]) * tc, inc = m[pickd].inc;
          double got = c.getDwellTime(w, pickd); REQUIRE(near_(got, std::min(a, inc), 1e-9), "dwell time of walker " << w << " is " << got << " want " << std::min(a, inc));
          if (a > inc * 1.000001) { double more = c.getDwellTime(w, pickd); REQUIRE(near_(more, std::min(a - inc, inc), 1e-6, 1e-9 * tc), "second piece " << more << " want " << std::min(a - inc, inc)); } } }
      check(c, m, text);
    }
    keep.clear();
  }
}
