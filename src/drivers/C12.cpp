// Base relocations
#include "../gens.h"
extern const char* const PROPERTY = "C12";
extern const char* const RULE = "each case plants an independently encoded relocation directory (padding entries, empty blocks, early terminator, any types, in sections or headers) and requires the library to report its tables with and without padding entries, or rebuilds a random list into a random place and requires an independent decoder (4-byte aligned blocks that fill the directory exactly) and the library to recover it, or reads and rebuilds the relocations of a shipped image; non-trivial: at least one table; distinct by file or list";
u64 num_cases(bool t) { return t ? 1600000 : 60000; }
void setup() {}
static std::vector<MRel> decodeAll(const Mem& m, u32 rva, u32 size) { std::vector<MRel> v; for(u64 p = 0; p < size;) { MRel x; x.page = m.r32(rva + p); u32 n = m.r32(rva + p + 4); if(!n) break; if(n < 8) bad("block of %u bytes", n); for(u32 i = 8; i + 1 < n; i += 2) x.e.push_back(m.r16(rva + p + i)); v.push_back(x); p += n; } return v; }
static void shipped(Rng& r, u64 idx) {
    const auto& f = realFiles()[idx % realFiles().size()]; Parsed q = parse(f.second, false); if(!q.ok() || q.im.ndirs() < 6 || !q.im.dir[5][0] || (q.im.h[CHARS] & 1)) throw CaseSkip();
    note_input(f.second); std::vector<MRel> w; try { w = decodeAll(Mem(mapImage(f.second, q)), q.im.dir[5][0], q.im.dir[5][1]); } catch(const Bad&) { throw CaseSkip(); }
    pe_base p = openPe(f.second); KRelocs k; k.t = w; std::string e;
    mustWork("read-refused", f.first, [&] { e = k.lib(p); }); CHECK(e.empty(), "read-wrong", "%s: %s", f.first.c_str(), e.c_str());
    // written again in a new place: same tables
    section s; s.set_name("rel2"); s.readable(true); s.get_raw_data().resize(1); if(p.get_image_sections().size() > 90) throw CaseSkip(); p.add_section(s);
    relocation_table_list l = get_relocations(p, true);
    mustWork("rebuild-refused", f.first, [&] { rebuild_relocations(p, l, p.get_image_sections().back(), static_cast<u32>(r.below(50)), true, r.chance(50)); });
    k.rebuilt = true; checkStored(p, k, f.first.c_str()); count("shipped-rebuilt"); nontrivial(idx);
}
void run_case(Rng& r, u64 idx) {
    KRelocs k; int size = r.chance(40) ? 0 : r.chance(80) ? 1 : 2;
    if(idx < realFiles().size()) { shipped(r, idx); return; }
    if(idx % 10 == 1) { // a single entry, however it was made
        u32 it = r.u32v() & 0xFFFF, off = it & 0xFFF, ty = it >> 12; relocation_entry e = r.chance(33) ? relocation_entry(static_cast<u16>(it)) : r.chance(50) ? relocation_entry(static_cast<u16>(off), static_cast<u16>(ty)) : relocation_entry();
        if(!e.get_item() && it) { if(r.chance(50)) e.set_item(static_cast<u16>(it)); else { e.set_rva(static_cast<u16>(off)); e.set_type(static_cast<u16>(ty)); } }
        const relocation_entry& c = e; EQ(c.get_item(), it, "entry-value-wrong", "relocation entry %x", it); EQ(c.get_rva(), off, "entry-value-wrong", "offset of relocation entry %x", it); EQ(c.get_type(), ty, "entry-value-wrong", "type of relocation entry %x", it);
        u32 to = r.u32v() & 0xFFFF; e.set_item(static_cast<u16>(to)); EQ(c.get_item(), to, "entry-value-wrong", "relocation entry %x set to %x", it, to); EQ(c.get_rva(), to & 0xFFF, "entry-value-wrong", "offset of entry %x", to); EQ(c.get_type(), to >> 12, "entry-value-wrong", "type of entry %x", to);
        count("entry-values");
    }
    if(idx % 20 == 0) { // flags: images marked as stripped have no relocations
        GenOpt o; o.minSecs = 1; o.maxSecs = 3; o.fullDirs = true; Img im = genImg(r, o); planted(r, im, k, 1, false); im.h[CHARS] |= 1; Bytes f = im.file(); note_input(f); pe_base p = openPe(f);
        CHECK(!p.has_reloc() && get_relocations(p).empty() && get_relocations(p, true).empty(), "stripped-has-relocations", "an image marked as stripped reports relocations"); count("stripped-images");
        section s; s.set_name("r"); s.readable(true); s.get_raw_data().resize(1); p.add_section(s); u32 fl = p.get_characteristics(), dl = p.get_dll_characteristics();
        rebuild_relocations(p, k.list(), p.get_image_sections().back(), 0);
        EQ(p.get_characteristics(), fl & ~1u, "flags-wrong", "image flags after rebuilding relocations"); EQ(p.get_dll_characteristics(), dl | 0x40u, "flags-wrong", "DLL flags after rebuilding relocations");
        std::string e = k.lib(p); CHECK(e.empty(), "object-reread-wrong", "rebuilt into a stripped image: %s", e.c_str()); nontrivial(fnv(f)); return;
    }
    if(idx & 1) readScenario(r, k, size, r.chance(30)); else writeScenario(r, k, size);
}
