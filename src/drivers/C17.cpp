// Resource trees
#include "../gens.h"
extern const char* const PROPERTY = "C17";
extern const char* const RULE = "each case plants an independently encoded resource tree (shuffled tables, names and data, any depth, attributes, empty data) and requires the library to report an equal tree, or rebuilds a random tree into a random place and requires an independent decoder (entry order, alignment, no overlap of tables, names and data) and the library to recover it, or reads a shipped image's tree with both decoders and rebuilds it, or asks for a tree the format cannot hold, which must be refused; non-trivial: every case; distinct by file or tree";
u64 num_cases(bool t) { return t ? 1300000 : 50000; }
void setup() {}
static void shipped(Rng& r, u64 idx) {
    const auto& f = realFiles()[idx]; Parsed q = parse(f.second, false); if(!q.ok() || q.im.ndirs() < 3 || !q.im.dir[2][0]) throw CaseSkip();
    note_input(f.second); MDir w; try { w = decodeResources(Mem(mapImage(f.second, q)), q.im.dir[2][0], false); } catch(const Bad&) { throw CaseSkip(); }
    pe_base p = openPe(f.second); KResources k; k.d = w; std::string e;
    mustWork("read-refused", f.first, [&] { e = k.lib(p); }); CHECK(e.empty(), "read-wrong", "%s: %s", f.first.c_str(), e.c_str());
    if(p.get_image_sections().size() > 90) throw CaseSkip();
    section s; s.set_name("rs2"); s.readable(true); s.get_raw_data().resize(1); p.add_section(s);
    resource_directory d = get_resources(p);
    mustWork("rebuild-refused", f.first, [&] { rebuild_resources(p, d, p.get_image_sections().back(), static_cast<u32>(r.below(50)), true, r.chance(50)); });
    k.rebuilt = true; sortDir(k.d); checkStored(p, k, f.first.c_str()); count("shipped-rebuilt"); nontrivial(idx);
}
static void unrepresentable(Rng& r) {
    pe_base p = subject(r, true); KResources k; Spot s = prepareRebuild(r, p, k, 0, false); resource_directory d = toLib(k.d); resource_directory* at = &d; std::string what;
    // some directory of the tree
    while(r.chance(60)) { resource_directory* n = 0; for(auto& e : at->get_entry_list()) if(!e.includes_data()) n = &e.get_resource_directory(); if(!n) break; at = n; }
    resource_directory_entry e; e.add_data_entry(resource_data_entry("x", 0));
    switch(r.below(4)) {
    case 0: e.set_id(0x80000000u | r.u32v()); what = "an identifier with the top bit"; break;
    case 1: e.set_name(std::wstring(65536 + r.below(10), L'a')); what = "a name of more than 65535 characters"; break;
    case 2: { e.set_id(0); for(u32 i = 0; i < 65537; ++i) { e.set_id(i); at->add_resource_directory_entry(e); } e.set_id(70000); what = "a directory of more than 65535 numbered entries"; break; }
    default: d = resource_directory(); what = "an empty tree"; break;
    }
    if(what != "an empty tree") at->add_resource_directory_entry(e);
    Bytes sec0; for(const section& q : p.get_image_sections()) sec0 += q.get_raw_data(); Bytes nt0(p.get_nt_headers_ptr(), p.get_sizeof_nt_header());
    mustRefuse("unrepresentable-accepted", what, [&] { rebuild_resources(p, d, p.get_image_sections()[s.sec], s.off); });
    Bytes sec1; for(const section& q : p.get_image_sections()) sec1 += q.get_raw_data();
    CHECK(sec0 == sec1 && nt0 == Bytes(p.get_nt_headers_ptr(), p.get_sizeof_nt_header()), "refusal-changed-image", "%s: refused but the image changed", what.c_str());
    count("unrepresentable-refused"); nontrivial(fnv(what) ^ r.next());
}
static void big(Rng& r) { // name and entry limits that still fit
    KResources k; k.pe64 = r.chance(50); pe_base p = k.pe64 ? pe_base(pe_properties_64(), 0x1000) : pe_base(pe_properties_32(), 0x1000); section s; s.set_name("b"); s.readable(true); s.get_raw_data().resize(1); p.add_section(s);
    MEnt e; e.named = true; e.name = std::u16string(r.chance(50) ? 65535 : 30000 + r.below(35000), u'q'); e.data = "big"; k.d.e.push_back(e);
    if(r.chance(50)) for(u32 i = 0; i < 3000; ++i) { MEnt x; x.id = i * 7; x.data = r.bytes(r.below(4)); k.d.e.push_back(x); }
    if(r.chance(50)) r.shuffle(k.d.e);
    mustWork("rebuild-refused", "a tree at the limits", [&] { k.rebuild(p, p.get_image_sections()[0], 0, true, r.chance(50)); });
    std::string d = k.lib(p); CHECK(d.empty(), "object-reread-wrong", "a tree at the limits: %s", d.c_str()); checkStored(p, k, "at the limits"); count("limit-trees"); nontrivial(r.next());
}
void run_case(Rng& r, u64 idx) {
    KResources k; int size = r.chance(40) ? 0 : r.chance(80) ? 1 : 2;
    if(idx < realFiles().size()) { shipped(r, idx); return; }
    if(idx % 100 == 3) { unrepresentable(r); return; }
    if(idx % 1000 == 5) { big(r); return; }
    if(idx & 1) readScenario(r, k, size, r.chance(30)); else writeScenario(r, k, size);
}
