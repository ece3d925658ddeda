#ifndef VERIF_SITES_HPP
#define VERIF_SITES_HPP
#include "common.hpp"
#include "libmythical/topologyfeatures/site.hpp"
using namespace mythical;
// the random number the next draw of a freshly seeded object uses
static std::vector<double> draws(unsigned long seed, int n) {
  std::mt19937 g(seed);
  std::uniform_real_distribution<double> d(0.0, 1.0);
  std::vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(d(g));
  return v;
}
typedef std::unordered_map<int, double> RM;
static double rate() {
  switch (irand(0, 4)) { case 0: return 1.0; case 1: return logrand(1e-6, 1e6); case 2: return irand(1, 5); default: return drand(0.01, 10); }
}
static int sid() { return irand(0, 3) ? irand(0, 12) : (irand(0, 1) ? irand(-5, 5) : irand(1000, 1000000)); }
static void check_site(Site &s, const std::map<int, double> &m, const std::string &at) {
  double sum = 0, mx = 0;
  for (auto &e : m) { sum += e.second; mx = std::max(mx, e.second); }
  REQUIRE(near_(s.getTimeConstant(), 1.0 / sum), at << ": time constant " << s.getTimeConstant() << " want " << 1.0 / sum);
  REQUIRE(near_(s.getFastestRate(), mx), at << ": fastest rate " << s.getFastestRate());
  std::vector<int> ids = s.getNeighborSiteIds();
  std::set<int> a(ids.begin(), ids.end()), b;
  for (auto &e : m) b.insert(e.first);
  REQUIRE(ids.size() == m.size() && a == b, at << ": neighbor ids");
  std::vector<double> rs = s.getRateToNeighbors(), want;
  for (auto &e : m) want.push_back(e.second);
  std::sort(rs.begin(), rs.end()); std::sort(want.begin(), want.end());
  REQUIRE(rs == want, at << ": rates to neighbors");
  auto pr = s.getProbabilitiesAndIdsOfNeighbors();
  REQUIRE(pr.size() == m.size(), at << ": " << pr.size() << " probabilities for " << m.size() << " neighbors");
  double tot = 0; std::set<int> seen;
  for (auto &e : pr) {
    REQUIRE(m.count(e.first) && seen.insert(e.first).second, at << ": probability entry for " << e.first);
    REQUIRE(near_(e.second, m.at(e.first) / sum), at << ": probability of " << e.first << " is " << e.second);
    tot += e.second;
  }
  REQUIRE(std::fabs(tot - 1) < 1e-9, at << ": probabilities add up to " << tot);
  auto nr = s.getNeighborsAndRates(); auto &nc = s.getNeighborsAndRatesConst();
  REQUIRE(nr.size() == m.size() && nc.size() == m.size(), at << ": neighbors and rates");
  for (auto &e : m) {
    REQUIRE(s.isNeighbor(e.first), at << ": " << e.first << " is a neighbor");
    REQUIRE(s.getRateToNeighbor(e.first) == e.second, at << ": rate to " << e.first);
    REQUIRE(near_(s.getProbabilityOfHoppingToNeighboringSite(e.first), e.second / sum), at << ": probability of hopping to " << e.first << " is " << s.getProbabilityOfHoppingToNeighboringSite(e.first));
    REQUIRE(nr.count(e.first) && *nr[e.first] == e.second && nc.count(e.first) && *nc.at(e.first) == e.second, at << ": neighbors and rates of " << e.first);
  }
  for (int i = -6; i < 14; ++i) REQUIRE(s.isNeighbor(i) == (m.count(i) == 1), at << ": is " << i << " a neighbor");
}
#endif
