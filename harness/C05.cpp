#include "flights.hpp"
void one_case(Rnd& r) {
  if (case_no % 3 == 1) balls(r, false); else slabs(r, false);
}
