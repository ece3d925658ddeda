#include "common.hpp"
#include "mythical/walker.hpp"
#include "libmythical/identity.hpp"
using namespace mythical;
void run() {
  std::vector<int> ids = {0, 1, -1, 2, 7, 1000000, std::numeric_limits<int>::max(), std::numeric_limits<int>::min() + 1};
  for (int k = 0; k < 3000 * SCALE; ++k) {
    Walker w; Identity id; bool cs = false, ps = false, ds = false, is = false; int c = 0, p = 0, i = 0; double d = 0;
    std::ostringstream o;
    for (int s = 0; s < 12; ++s) {
      int v = irand(0, 1) ? ids[irand(0, (int)ids.size() - 1)] : irand(-1000, 1000);
      switch (irand(0, 4)) {
        case 0: o << " occupySite(" << v << ")"; w.occupySite(v); c = v; cs = true; break;
        case 1: o << " setPotentialSite(" << v << ")"; w.setPotentialSite(v); p = v; ps = true; break;
        case 2: d = (irand(0,4)==0)? 0.0 : drand(-1, 9); o << " setDwellTime(" << d << ")"; w.setDwellTime(d); ds = true; break;
        case 3: o << " setId(" << v << ")"; id.setId(v); i = v; is = true; break;
        default: break;
      }
      WHERE = o.str();
      if (cs) REQUIRE(w.getIdOfSiteCurrentlyOccupying() == c, "current site"); else REQUIRE(throws<std::runtime_error>([&] { w.getIdOfSiteCurrentlyOccupying(); }), "current site never set");
      if (ps) REQUIRE(w.getPotentialSite() == p, "potential site"); else REQUIRE(throws<std::runtime_error>([&] { w.getPotentialSite(); }), "potential site never set");
      if (ds) REQUIRE(w.getDwellTime() == d, "dwell time");
      if (is) REQUIRE(id.getId() == i, "id"); else REQUIRE(throws<std::runtime_error>([&] { id.getId(); }), "id never set");
    }
  }
}
