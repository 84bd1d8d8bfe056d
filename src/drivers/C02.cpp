// Arbitrary bytes as typed resources: every reader and writer
#include "../sweep.h"
extern const char* const PROPERTY = "C02";
extern const char* const RULE = "each case takes a resource tree of icons, cursors, bitmaps, strings, messages and version information, damages payloads and structure (or stores random bytes under those types), runs every typed reader on it, runs random typed writers and editors with damaged files and hostile arguments, and reads again, under ASan+UBSan with allocation-balance, allocation-size and CPU-time monitors; non-trivial: at least one typed reader returned a value and one refused; distinct by the observations made";
u64 num_cases(bool t) { return t ? 3000000 : 60000; }
void setup() { alloc::single_cap = 64u << 20; alloc::total_cap = 512u << 20; alloc::track_leaks(true); observeTyped(resource_directory()); }
void run_case(Rng& r, u64) {
    resource_directory root; if(r.chance(92)) root = typedTree(r);
    else { pe_resource_manager m(root); static const u32 t[] = {1, 2, 3, 6, 11, 12, 14, 16}; for(u64 n = 1 + r.below(6); n; --n) m.add_resource(r.bytes(r.below(120)), static_cast<pe_resource_viewer::resource_type>(t[r.below(8)]), static_cast<u32>(1 + r.below(3)), 0x409); }
    mutateTree(r, root);
    Obs a = observeTyped(root); u64 w = workedObs(a); count("readers-returning-values", w); count("readers-refusing", a.size() - w);
    if(r.chance(60)) { editTyped(r, root, 1 + r.below(6)); if(r.chance(30)) mutateTree(r, root); Obs b = observeTyped(root); count("readers-after-edits", b.size()); }
    if(w && w < a.size()) nontrivial(hashObs(a));
}
