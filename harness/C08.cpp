#include "common.hpp"
#include "mythical/queue.hpp"
using namespace mythical;
typedef std::pair<int, double> W;
static std::vector<W> dump(const Queue &q) { std::vector<W> v; for (size_t i = 0; i < q.size(); ++i) v.push_back(q.at((int)i)); return v; }
static bool ordered(const std::vector<W> &v) { for (size_t i = 1; i < v.size(); ++i) if (v[i].second < v[i - 1].second) return false; return true; }
void run() {
  WHERE = "new queue";
  { Queue q; REQUIRE(q.size() == 0 && q.isSorted(), "empty"); }
  for (int k = 0; k < 1500 * SCALE; ++k) {
    Queue q; std::vector<W> m;
    std::ostringstream o;
    int n = irand(1, 40);
    bool grid = irand(0, 1);
    for (int s = 0; s < n; ++s) {
      W w(irand(-3, 1000000), grid ? irand(-2, 3) : drand(-5, 5));
      std::vector<W> before = dump(q);
      switch (irand(0, 5)) {
        case 0: case 1:
          o << " add(" << w.first << "," << w.second << ")"; WHERE = o.str();
          q.add(w); m.push_back(w);
          REQUIRE(dump(q) == m, "add appends exactly this walker");
          break;
        case 2: case 3: {
          o << " sortedAdd(" << w.first << "," << w.second << ")"; WHERE = o.str();
          bool srt = ordered(m);
          q.sortedAdd(w);
          std::vector<W> got = dump(q);
          if (srt) {
            size_t p = 0; while (p < m.size() && m[p].second <= w.second) ++p;
            m.insert(m.begin() + p, w);
            REQUIRE(got == m, "sortedAdd keeps a sorted queue sorted, behind equal times");
          } else {
            REQUIRE(got.size() == m.size() + 1, "sortedAdd adds one");
            std::vector<W> a = got, b = m; b.push_back(w); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            REQUIRE(a == b, "sortedAdd loses nothing");
            m = got;
          }
          break; }
        case 4: {
          o << " sort"; WHERE = o.str();
          q.sort();
          std::vector<W> got = dump(q), a = got, b = m; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
          REQUIRE(a == b, "sort is a permutation");
          REQUIRE(ordered(got) && q.isSorted(), "sort sorts");
          m = got;
          break; }
        default:
          if (m.empty()) break;
          o << " pop"; WHERE = o.str();
          W g = q.pop_current();
          REQUIRE(g == m.front(), "pop returns the front, got " << g.first << "," << g.second);
          m.erase(m.begin());
          REQUIRE(dump(q) == m, "pop removes exactly the front");
      }
      REQUIRE(q.size() == m.size(), "size");
      if (q.isSorted()) REQUIRE(ordered(dump(q)), "reported sorted but is not");
      REQUIRE(throws<std::out_of_range>([&] { q.at((int)m.size()); }) && throws<std::out_of_range>([&] { q.at(-1); }), "index outside the queue");
    }
  }
}
