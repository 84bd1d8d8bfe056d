// Load configuration
#include "../gens.h"
extern const char* const PROPERTY = "C15";
extern const char* const RULE = "each case plants an independently encoded load configuration (with handler and lock-prefix tables anywhere in sections or headers, larger stored structures) and requires the library to report every field and both tables, or rebuilds a random configuration with every choice of table writing into a random place and requires an independent decoder (ascending handlers, terminated lock table) and the library to recover it; non-trivial: every case; distinct by file or request";
u64 num_cases(bool t) { return t ? 1600000 : 60000; }
void setup() {}
void run_case(Rng& r, u64 idx) {
    KConfig k; int size = r.chance(40) ? 0 : r.chance(80) ? 1 : 2;
    if(idx & 1) readScenario(r, k, size, r.chance(30)); else writeScenario(r, k, size);
}
