// no-assertions
#include "flights.hpp"
void one_case(Rnd& r) {
  if (case_no % 3 == 0) slabs(r, true); else balls(r, true);
}
