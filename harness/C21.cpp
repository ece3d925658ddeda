#include "common.hpp"
#include "libmythical/rate_container.hpp"
using namespace mythical;
typedef std::map<std::pair<int, int>, double *> M;
static void check(Rate_Container &c, const M &m, const std::string &at) {
  std::set<int> ids = {-3, 77};
  std::set<int> src, dst;
  for (auto &e : m) { ids.insert(e.first.first); ids.insert(e.first.second); src.insert(e.first.first); dst.insert(e.first.second); }
  for (int i : ids) {
    size_t in = 0, out = 0;
    for (auto &e : m) { in += e.first.second == i; out += e.first.first == i; }
    REQUIRE(c.incomingRateCount(i) == in, at << ": incoming count of " << i << " is " << c.incomingRateCount(i));
    REQUIRE(c.outgoingRateCount(i) == out, at << ": outgoing count of " << i << " is " << c.outgoingRateCount(i));
    auto im = c.getIncomingRates(i); auto om = c.getOutgoingRates(i);
    size_t ni = 0, no = 0;
    for (auto &a : im) for (auto &b : a.second) { ++ni; REQUIRE(b.first == i && m.count({a.first, b.first}) && m.at({a.first, b.first}) == b.second, at << ": incoming rates of " << i); }
    for (auto &a : om) for (auto &b : a.second) { ++no; REQUIRE(a.first == i && m.count({a.first, b.first}) && m.at({a.first, b.first}) == b.second, at << ": outgoing rates of " << i); }
    REQUIRE(ni == in && no == out, at << ": size of the rate maps of " << i);
    for (int j : ids) {
      auto it = m.find({i, j});
      if (it == m.end()) REQUIRE(throws<std::invalid_argument>([&] { c.getRate(i, j); }), at << ": rate " << i << "->" << j << " was never added");
      else REQUIRE(c.getRate(i, j) == it->second, at << ": rate " << i << "->" << j);
    }
  }
  std::vector<int> so = c.getSourceSiteIds(), si = c.getSinkSiteIds();
  std::set<int> ws, wk;
  for (int i : src) if (!dst.count(i)) ws.insert(i);
  for (int i : dst) if (!src.count(i)) wk.insert(i);
  REQUIRE(so.size() == ws.size() && std::set<int>(so.begin(), so.end()) == ws, at << ": source ids");
  REQUIRE(si.size() == wk.size() && std::set<int>(si.begin(), si.end()) == wk, at << ": sink ids");
}
void run() {
  static double pool[64];
  for (int i = 0; i < 64; ++i) pool[i] = i % 9 == 0 ? 0.0 : i + 1;
  for (int k = 0; k < 250 * SCALE; ++k) {
    std::ostringstream o; M m; int N = irand(1, 6), np = 0;
    auto mk = [&](int c) { Rate_Map r; for (int i = 0; i < c; ++i) { int a = irand(0, N), b = irand(0, N); if (!m.count({a, b}) && np < 64) { r[a][b] = &pool[np++]; m[{a, b}] = r[a][b]; o << a << "->" << b << " "; } } return r; };
    Rate_Container c;
    if (irand(0, 1)) { o << "ctor{"; Rate_Map r = mk(irand(0, 5)); c = Rate_Container(r); o << "}"; }
    WHERE = o.str();
    check(c, m, "after construction");
    int n = irand(1, 6);
    for (int t = 0; t < n; ++t) {
      int a = irand(0, N), b = irand(0, N);
      switch (irand(0, 2)) {
        case 0:
          if (np >= 64) break;
          o << " addRate(" << a << "," << b << ")"; WHERE = o.str();
          if (m.count({a, b})) REQUIRE(throws<std::invalid_argument>([&] { c.addRate(a, b, &pool[np]); }), "rate added twice");
          else { c.addRate(a, b, &pool[np]); m[{a, b}] = &pool[np]; ++np; }
          break;
        case 1: { o << " addRates{"; Rate_Map r = mk(irand(0, 6)); o << "}"; WHERE = o.str(); c.addRates(r); break; }
        default:
          if (m.empty()) break;
          { Rate_Map r; auto it = m.begin(); std::advance(it, irand(0, (int)m.size() - 1)); r[it->first.first][it->first.second] = it->second;
            o << " addRates(dup)"; WHERE = o.str();
            REQUIRE(throws<std::invalid_argument>([&] { c.addRates(r); }), "rate " << it->first.first << "->" << it->first.second << " added twice"); }
      }
      check(c, m, "after the last operation");
    }
  }
}
