#ifndef VERIF_CLUSTERS_HPP
#define VERIF_CLUSTERS_HPP
#include "sites.hpp"
#include "libmythical/topologyfeatures/cluster.hpp"
#include <list>
typedef std::map<int, std::map<int, double>> Net;   // site -> neighbor -> rate
static std::list<RM> STORE;                          // rates outlive the sites that point to them
static double crate() { switch (irand(0, 3)) { case 0: return 1.0; case 1: return irand(1, 4); case 2: return logrand(0.02, 50); default: return drand(0.1, 10); } }
static Site mksite(const Net &n, int id) {
  STORE.emplace_back();
  RM &r = STORE.back();
  for (auto &e : n.at(id)) r[e.first] = e.second;
  Site s; s.setId(id); s.setRatesToNeighbors(r);
  return s;
}
static std::vector<int> distinct_ids(int k) {
  std::set<int> s; std::vector<int> v;
  while ((int)v.size() < k) { int i = sid(); if (s.insert(i).second) v.push_back(i); }
  return v;
}
// ids become connected by mutual rates; lone: this many of them get no inner neighbor
static Net internal(const std::vector<int> &ids, int lone = 0) {
  Net n; int k = (int)ids.size() - lone;
  for (int i = 0; i < (int)ids.size(); ++i) n[ids[i]];
  for (int i = 1; i < k; ++i) { int j = irand(0, i - 1); n[ids[i]][ids[j]] = crate(); n[ids[j]][ids[i]] = crate(); }
  for (int t = irand(0, k); t > 0; --t) { int i = irand(0, k - 1), j = irand(0, k - 1); if (i == j) continue; n[ids[i]][ids[j]] = crate(); n[ids[j]][ids[i]] = crate(); }
  return n;
}
static void exits(Net &n, const std::vector<int> &ids, const std::vector<int> &out, int lone, bool none) {
  for (int i = (int)ids.size() - lone; i < (int)ids.size(); ++i) n[ids[i]][out[irand(0, out.size() - 1)]] = crate();
  if (none) return;
  for (int t = irand(1, 5); t > 0; --t) n[ids[irand(0, ids.size() - 1)]][out[irand(0, out.size() - 1)]] = crate();
}
static std::string show(const Net &n) {
  std::ostringstream o; o.precision(17);
  for (auto &a : n) { o << " site " << a.first << " rates {"; for (auto &b : a.second) o << b.first << ":" << b.second << " "; o << "}"; }
  return o.str();
}
struct Conv { Cluster::Method m; long it; double tol; double res; };
static Conv conv(Cluster &c) {
  Conv v; v.m = (Cluster::Method)irand(0, 2); v.it = irand(1, 6); v.tol = logrand(1e-6, 0.2); v.res = irand(0, 2) ? drand(2, 40) : 2.0;
  c.setConvergenceMethod(v.m); c.setConvergenceIterations(v.it); c.setConvergenceTolerance(v.tol); c.setResolution(v.res);
  return v;
}
static std::string show(const Conv &v) { std::ostringstream o; o.precision(17); o << " method " << v.m << " iterations " << v.it << " tolerance " << v.tol << " resolution " << v.res; return o.str(); }
// what an update has to compute
struct Want {
  std::set<int> mem;
  std::map<int, double> tau, prob, exit, inner, out, in;   // per member: time constant, probability, outward and inner rates; exit and inner pick distributions
  double tc = 0, fast = 0; bool defined = false; bool doubtful = false;
};
static double hop(const Net &n, int a, int b) { double s = 0; for (auto &e : n.at(a)) s += e.second; return n.at(a).at(b) / s; }
static Want want(const Net &n, const std::set<int> &mem, const Conv &v) {
  Want w; w.mem = mem;
  for (int i : mem) {
    double s = 0; w.out[i] = 0; w.in[i] = 0;
    for (auto &e : n.at(i)) { s += e.second; if (mem.count(e.first)) w.in[i] += e.second; else { w.out[i] += e.second; w.fast = std::max(w.fast, e.second); w.defined = true; } }
    w.tau[i] = 1 / s; w.prob[i] = 1.0 / mem.size();
  }
  long count = v.m == Cluster::converge_by_iterations_per_cluster ? v.it : v.it * (long)mem.size();
  for (long t = 0; v.m == Cluster::converge_by_tolerance ? t < 100000 : t < count; ++t) {
    std::map<int, double> f; double tot = 0, err = 0;
    for (int i : mem) { for (auto &e : n.at(i)) if (mem.count(e.first)) f[i] += hop(n, e.first, i) * w.prob[e.first]; tot += f[i]; }
    for (int i : mem) { double q = (f[i] / tot + w.prob[i]) / 2; err += (q - w.prob[i]) * (q - w.prob[i]); w.prob[i] = q; }
    err = std::sqrt(err);
    if (v.m == Cluster::converge_by_tolerance) { if (std::fabs(err - v.tol) < 1e-9) w.doubtful = true; if (err <= v.tol) break; }
  }
  double te = 0, ti = 0, tw = 0; std::map<int, double> wt;
  for (int i : mem) {
    for (auto &e : n.at(i)) if (!mem.count(e.first)) { double q = hop(n, i, e.first) * w.prob[i]; w.exit[e.first] += q; te += q; }
    w.inner[i] = w.prob[i] * w.tau[i]; ti += w.inner[i];
    wt[i] = w.prob[i] * w.out[i] * w.tau[i]; tw += wt[i];
  }
  for (auto &e : w.exit) e.second /= te;
  for (auto &e : w.inner) e.second /= ti;
  if (w.defined) for (int i : mem) if (w.out[i] > 0) w.tc += wt[i] / tw / w.out[i];
  return w;
}
static bool close_(double a, double b) { return near_(a, b, 1e-7, 1e-10); }
// the entries whose interval of the cumulative distribution (largest first) may contain u
static std::set<int> picks(const std::map<int, double> &d, double u) {
  std::vector<std::pair<double, int>> v; for (auto &e : d) v.push_back({e.second, e.first});
  std::sort(v.begin(), v.end(), [](const std::pair<double, int> &a, const std::pair<double, int> &b) { return a.first > b.first; });
  std::set<int> r; double lo = 0; size_t i = 0;
  while (i < v.size()) {
    size_t j = i; double hi = lo;
    while (j < v.size() && v[j].first > v[i].first - 1e-9) { hi += v[j].first; ++j; }
    if (u > lo - 1e-8 && u < hi + 1e-8) for (size_t k = i; k < j; ++k) r.insert(v[k].second);
    lo = hi; i = j;
  }
  return r;
}
// a network with a cluster on some of its sites
struct Case {
  Net net; std::vector<int> ids, out; Conv cv; Cluster c; std::string text;
  Case(int lone = 0, bool none = false, int least = 2) {
    STORE.clear();
    int k = irand(least, 7), o = irand(1, 5); auto all = distinct_ids(k + lone + o);
    ids.assign(all.begin(), all.begin() + k + lone); out.assign(all.begin() + k + lone, all.end());
    net = internal(ids, lone); exits(net, ids, out, lone, none); cv = conv(c);
    std::ostringstream s; s << "cluster of"; for (int i : ids) s << " " << i; s << show(net) << show(cv); text = s.str(); WHERE = text;
  }
  void fill() { if (irand(0, 1)) { std::vector<Site> v; for (int i : ids) v.push_back(mksite(net, i)); c.addSites(v); } else for (int i : ids) { Site s = mksite(net, i); c.addSite(s); } }
  std::set<int> mem() { return std::set<int>(ids.begin(), ids.end()); }
  void say(const std::string &t) { text += t; WHERE = text; }
};
template <class T> static std::string str(T v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
#endif
