#include "sites.hpp"
#include "libmythical/site_container.hpp"
#include <list>
struct Mdl { std::map<int, double> r; int occ; int cid; unsigned long seed; };
static const int UN = constants::unassignedId;
typedef std::invalid_argument IA;
static void check(Site_Container &c, std::map<int, Mdl> &m, const std::string &at) {
  REQUIRE(c.size() == m.size(), at << ": size " << c.size() << " want " << m.size());
  std::vector<int> ids = c.getSiteIds(); std::set<int> w; for (auto &e : m) w.insert(e.first);
  REQUIRE(ids.size() == m.size() && std::set<int>(ids.begin(), ids.end()) == w, at << ": site ids");
  auto all = c.getSites();
  REQUIRE(all.size() == m.size(), at << ": all sites");
  auto rates = c.getRates();
  REQUIRE(rates.size() == m.size(), at << ": rate map size");
  for (auto &e : m) {
    int i = e.first;
    REQUIRE(c.exist(i), at << ": " << i << " exists");
    check_site(c.getSite(i), e.second.r, at);
    REQUIRE(c.getSite(i).getId() == i && all.count(i) && all[i].getId() == i, at << ": id of " << i);
    REQUIRE(all[i].getNeighborsAndRatesConst().size() == e.second.r.size(), at << ": copy of " << i);
    REQUIRE(c.isOccupied(i) == (e.second.occ > 0), at << ": occupancy of " << i);
    REQUIRE(c.getClusterIdOfSite(i) == e.second.cid, at << ": cluster of " << i);
    REQUIRE(c.partOfCluster(i) == (e.second.cid >= 0), at << ": part of cluster " << i);
    double sum = 0, mx = 0; for (auto &x : e.second.r) { sum += x.second; mx = std::max(mx, x.second); }
    REQUIRE(near_(c.getTimeConstant(i), 1 / sum), at << ": time constant of " << i);
    REQUIRE(near_(c.getFastestRateOffSite(i), mx), at << ": fastest rate of " << i);
    std::vector<int> nb = c.getSiteIdsOfNeighbors(i); std::set<int> nw; for (auto &x : e.second.r) nw.insert(x.first);
    REQUIRE(nb.size() == nw.size() && std::set<int>(nb.begin(), nb.end()) == nw, at << ": neighbors of " << i);
    REQUIRE(rates.count(i) && rates[i].size() == nw.size(), at << ": rate map of " << i);
    for (auto &x : e.second.r) {
      REQUIRE(c.getRateToNeighborOfSite(i, x.first) == x.second, at << ": rate " << i << "->" << x.first);
      REQUIRE(rates[i].count(x.first) && *rates[i][x.first] == x.second, at << ": rate map " << i << "->" << x.first);
    }
    c.getSite(i).setRandomSeed(5);
    REQUIRE(near_(c.getDwellTime(i), -std::log(draws(5, 1)[0]) / sum), at << ": dwell time of " << i);
  }
  for (int u : {-9, 5000}) {
    if (m.count(u)) continue;
    REQUIRE(!c.exist(u), at << ": " << u << " does not exist");
    REQUIRE(throws<IA>([&] { c.getSite(u); }) && throws<IA>([&] { c.isOccupied(u); }) && throws<IA>([&] { c.occupy(u); }) && throws<IA>([&] { c.vacate(u); }), at << ": unknown site accepted");
    REQUIRE(throws<IA>([&] { c.setClusterId(u, 3); }) && throws<IA>([&] { c.getClusterIdOfSite(u); }) && throws<IA>([&] { c.partOfCluster(u); }) && throws<IA>([&] { c.getDwellTime(u); }), at << ": unknown site accepted");
    REQUIRE(throws<IA>([&] { c.getTimeConstant(u); }) && throws<IA>([&] { c.getFastestRateOffSite(u); }) && throws<IA>([&] { c.getRateToNeighborOfSite(u, 1); }) && throws<IA>([&] { c.getSiteIdsOfNeighbors(u); }), at << ": unknown site accepted");
    REQUIRE(throws<IA>([&] { c.getSites(std::vector<int>{u}); }) && throws<IA>([&] { c.getSmallestClusterId(std::vector<int>{u}); }), at << ": unknown site accepted");
  }
  REQUIRE(c.size() == m.size(), at << ": queries changed the size");
}
void run() {
  for (int k = 0; k < 120 * SCALE; ++k) {
    Site_Container c; std::map<int, Mdl> m; std::list<RM> store; std::ostringstream o;
    auto mk = [&](int id) { Site s; s.setId(id); store.emplace_back(); RM &r = store.back(); int n = irand(1, 4); for (int i = 0; i < n; ++i) r[sid()] = rate();
      s.setRatesToNeighbors(r); Mdl d; d.r = std::map<int, double>(r.begin(), r.end()); d.cid = UN; d.occ = 0;
      if (irand(0, 3) == 0) { s.occupy(); d.occ = 1; } if (irand(0, 3) == 0) { d.cid = irand(-2, 6); s.setClusterId(d.cid); } m[id] = d; return s; };
    WHERE = "empty container"; check(c, m, "new");
    int n = irand(1, 9);
    for (int t = 0; t < n; ++t) {
      int id = sid();
      switch (irand(0, 4)) {
        case 0: case 1:
          o << " addSite(" << id << ")"; WHERE = o.str();
          if (m.count(id)) { Site s; s.setId(id); REQUIRE(throws<IA>([&] { c.addSite(s); }), "site added twice"); }
          else { Site s = mk(id); c.addSite(s); }
          break;
        case 2: { std::vector<Site> v; o << " addSites("; std::set<int> nw; for (int i = 0; i < irand(0, 3); ++i) { int j = sid(); if (!m.count(j)) { v.push_back(mk(j)); o << j << " "; } } o << ")"; WHERE = o.str(); c.addSites(v); break; }
        default:
          if (m.empty()) break;
          auto it = m.begin(); std::advance(it, irand(0, (int)m.size() - 1)); int i = it->first;
          switch (irand(0, 2)) {
            case 0: o << " occupy(" << i << ")"; c.occupy(i); ++it->second.occ; break;
            case 1: o << " vacate(" << i << ")"; c.vacate(i); --it->second.occ; break;
            default: { int q = irand(0, 3) ? irand(0, 5) : (irand(0,1) ? UN : -1); o << " setClusterId(" << i << "," << q << ")"; c.setClusterId(i, q); it->second.cid = q; }
          }
          WHERE = o.str();
      }
      check(c, m, "after the last operation");
      std::vector<int> l, ids = c.getSiteIds(); int best = UN;
      for (int i = 0; i < irand(0, 5) && !ids.empty(); ++i) { int q = ids[irand(0, (int)ids.size() - 1)]; l.push_back(q); int d = m[q].cid; if (d != UN && (best == UN || d < best)) best = d; }
      REQUIRE(c.getSmallestClusterId(l) == best, "smallest cluster id " << c.getSmallestClusterId(l) << " want " << best);
      auto sub = c.getSites(l); std::set<int> ls(l.begin(), l.end());
      REQUIRE(sub.size() == ls.size(), "sites by list");
      for (int i : ls) { REQUIRE(sub.count(i) && sub[i].getId() == i, "site " << i << " by list"); check_site(sub[i], m[i].r, "site by list"); REQUIRE(sub[i].getClusterId() == m[i].cid && sub[i].isOccupied() == (m[i].occ > 0), "status of site by list"); }
      if (!l.empty()) { l.push_back(-424242); REQUIRE(throws<IA>([&] { c.getSites(l); }) && throws<IA>([&] { c.getSmallestClusterId(l); }), "unknown site in list"); }
    }
  }
}
