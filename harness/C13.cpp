#include "sites.hpp"
void run() {
  for (int k = 0; k < 4000 * SCALE; ++k) {
    Site s; int occ = 0, vis = 0; std::ostringstream o;
    REQUIRE(!s.isOccupied() && !s.isOccupied(3) && s.getVisitFrequency() == 0, "new site");
    int n = irand(1, 25);
    for (int t = 0; t < n; ++t) {
      int a = irand(-3, 9);
      switch (irand(0, 9)) {
        case 0: o << " occupy()"; s.occupy(); ++occ; ++vis; break;
        case 1: case 2: o << " occupy(" << a << ")"; s.occupy(a); ++occ; ++vis; break;
        case 3: o << " vacate()"; s.vacate(); --occ; break;
        case 4: o << " vacate(" << a << ")"; s.vacate(a); --occ; break;
        case 5: o << " removeWalker(" << a << ",1)"; s.removeWalker(a, 1); --occ; break;
        case 6: o << " setToOccupied"; s.setToOccupiedStatus(); occ = 1; break;
        case 7: o << " setToUnoccupied"; s.setToUnoccupiedStatus(); occ = 0; break;
        case 8: o << " setVisit(" << a << ")"; s.setVisitFrequency(a); vis = a; break;
        default: o << " setVisit2(" << a << ")"; s.setVisitFrequency(a, 4); vis = a; break;
      }
      WHERE = o.str();
      REQUIRE(s.isOccupied() == (occ > 0), "occupied, " << occ << " walkers");
      REQUIRE(s.isOccupied(a) == (occ > 0), "occupied by id, " << occ << " walkers");
      REQUIRE(s.getVisitFrequency() == vis && s.getVisitFrequency(a) == vis, "visits " << s.getVisitFrequency() << " want " << vis);
    }
  }
}
