// Exports: planted directories read exactly; any valid list rebuilt and recovered; duplicates refused
#include "../gens.h"
#include <set>
extern const char* const PROPERTY = "C11";
extern const char* const RULE = "each case plants an independently encoded export directory (ordinal gaps, unused leading entries, unnamed and forwarded functions, unsorted names, pieces inside or outside the directory range, in sections or headers) and requires the library to report it exactly, or rebuilds a random list (any order) into a random place and requires an independent decoder (name order, table bounds, forwarders inside the directory) and the library to recover it, or asks for a list with a duplicate ordinal or name, which must be refused without effect; non-trivial: at least one function; distinct by file or list";
u64 num_cases(bool t) { return t ? 1600000 : 60000; }
void setup() {}
static void duplicates(Rng& r) {
    pe_base p = subject(r, false); KExports k; Spot s = prepareRebuild(r, p, k, 1, false);
    if(k.f.empty()) throw CaseSkip();
    exported_functions_list l = k.list(); size_t i = r.below(l.size()); exported_function x = l[i]; bool byName = x.has_name() && r.chance(50);
    if(byName) { u32 o = 0; std::set<u32> used; for(auto& e : k.f) used.insert(e.ord); do o = static_cast<u32>(r.below(65536)); while(used.count(o)); x.set_ordinal(static_cast<u16>(o)); }
    else x.set_name(r.chance(50) ? "" : "dup" + r.ident(30, 40));
    x.set_rva(r.u32v() | 1); l.insert(l.begin() + r.below(l.size() + 1), x);
    Bytes sec0; for(const section& q : p.get_image_sections()) sec0 += q.get_raw_data(); Bytes nt0(p.get_nt_headers_ptr(), p.get_sizeof_nt_header());
    mustRefuse("duplicate-accepted", strf("a list of %zu exports with a duplicate %s", l.size(), byName ? "name" : "ordinal"), [&] { rebuild_exports(p, k.info(), l, p.get_image_sections()[s.sec], s.off); });
    Bytes sec1; for(const section& q : p.get_image_sections()) sec1 += q.get_raw_data();
    CHECK(sec0 == sec1 && nt0 == Bytes(p.get_nt_headers_ptr(), p.get_sizeof_nt_header()), "refusal-changed-image", "a refused export list changed the image");
    count("duplicates-refused"); nontrivial(r.next());
}
static void helpers(Rng& r) {
    exported_functions_list l; std::set<u32> ords; std::set<std::string> names; u32 lo = 65535, hi = 0; int n = static_cast<int>(r.below(12));
    for(int i = 0; i < n; ++i) { exported_function x; u32 o = static_cast<u32>(r.chance(20) ? (r.chance(50) ? 0 : 65535) : r.below(65536)); x.set_ordinal(static_cast<u16>(o)); ords.insert(o); lo = std::min(lo, o); hi = std::max(hi, o); if(r.chance(60)) { std::string s = r.ident(1, 2); x.set_name(s); names.insert(s); CHECK(x.has_name() && x.get_name() == s, "name-wrong", "name of a function"); } l.push_back(x); }
    std::pair<u16, u16> m = get_export_ordinal_limits(l); CHECK(m.first == (n ? lo : 0) && m.second == hi, "limits-wrong", "limits of %d functions are %u..%u instead of %u..%u", n, m.first, m.second, n ? lo : 0, hi);
    for(int i = 0; i < 20; ++i) { u32 o = i < 10 && n ? l[r.below(n)].get_ordinal() + static_cast<u32>(r.below(2)) : static_cast<u32>(r.below(65536)); o &= 65535; CHECK(exported_ordinal_exists(static_cast<u16>(o), l) == (ords.count(o) != 0), "existence-wrong", "existence of ordinal %u", o); std::string s = r.chance(5) ? std::string() : r.ident(1, 2); CHECK(exported_name_exists(s, l) == (names.count(s) != 0), "existence-wrong", "existence of name %s", s.c_str()); }
    count("query-lists");
}
void run_case(Rng& r, u64 idx) {
    KExports k; int size = r.chance(40) ? 0 : r.chance(80) ? 1 : 2;
    switch(idx % 16) { case 0: duplicates(r); break; case 1: helpers(r); break; default: if(idx & 1) readScenario(r, k, size, r.chance(30)); else writeScenario(r, k, size); }
}
