// Images created from nothing: every header setter against a byte model, sections and directories, and the written file
#include "../sweep.h"
#include <algorithm>
extern const char* const PROPERTY = "C32";
extern const char* const RULE = "each case creates an image (kind, alignment, DLL flag, subsystem), checks every byte of the new headers, applies random header setters with boundary values and compares all header bytes and all getters with a byte model after each, adds sections and directories, writes the file and requires an independent strict reader and the library to find exactly the values set; non-trivial: at least one setter and one section or directory; distinct by operation trace and written bytes";
u64 num_cases(bool t) { return t ? 300000 : 9000; }
void setup() {}
static void emptyRecords() { // every record a user starts from holds nothing
    alloc::fill = 0xA5; Obs all = observeDefaults(); alloc::fill = -1;
    for(const auto& o : all) {
        std::string want; for(char c : o.second) if(c == ',' || c == ':') { want += '0'; want += c; }
        if(o.first == "default section") { size_t i = 0; for(int k = 0; k < 5; ++k) i = want.find(',', i) + 1; want[i] = '1'; } // "holds no data" is true
        CHECK(o.second == want, "record-not-empty", "%s: holds %s", o.first.c_str(), o.second.c_str());
        count("empty-records");
    }
}
struct W { Img im; };   // expected headers (fields and directories)
static Bytes ntOf(const pe_base& p) { return Bytes(p.get_nt_headers_ptr(), p.get_sizeof_nt_header()); }
static Bytes ntWant(const Img& m) {
    Bytes b(24 + m.optFixed() + 128, '\0'); memcpy(&b[0], "PE\0\0", 4);
    for(int i = 0; i < NHF; ++i) { int o = m.pe64 ? HFI[i].off64 : HFI[i].off32, s = m.pe64 ? HFI[i].size64 : HFI[i].size32; if(s) wrn(b, o, m.h[i], s); }
    for(u32 i = 0; i < 16; ++i) { wrn(b, 24 + m.optFixed() + 8 * i, m.dir[i][0], 4); wrn(b, 28 + m.optFixed() + 8 * i, m.dir[i][1], 4); }
    return b;
}
static void checkAll(pe_base& p, const Img& m, const Bytes& dos, const Bytes& stub, const std::string& op) {
    Bytes g = ntOf(p), w = ntWant(m);
    if(g != w) {
        size_t i = 0; while(i < g.size() && i < w.size() && g[i] == w[i]) ++i;
        std::string f = "?"; for(int k = 0; k < NHF; ++k) { int o = m.pe64 ? HFI[k].off64 : HFI[k].off32, s = m.pe64 ? HFI[k].size64 : HFI[k].size32; if(s && static_cast<int>(i) >= o && static_cast<int>(i) < o + s) f = HFI[k].name; }
        if(i >= 24 + m.optFixed()) f = strf("directory %zu", (i - 24 - m.optFixed()) / 8);
        fail("header-byte-wrong", "after %s: header byte %zu (%s): %s", op.c_str(), i, f.c_str(), diffAt(g, w).c_str());
    }
    const pe_base& c = p; Bytes d(reinterpret_cast<const char*>(&c.get_dos_header()), 64);
    CHECK(d == dos, "dos-header-wrong", "after %s: %s", op.c_str(), diffAt(d, dos).c_str());
    CHECK(p.get_stub_overlay() == stub, "stub-wrong", "after %s: stub: %s", op.c_str(), diffAt(p.get_stub_overlay(), stub).c_str());
    const char* k = "getter-wrong"; const u64* h = m.h; u32 a32; u64 a64; const char* on = op.c_str();
    EQ(p.get_pe_type() == pe_type_64, m.pe64, k, "kind after %s", on); EQ(p.get_pe_signature(), 0x4550, k, "signature after %s", on); EQ(p.get_magic(), m.pe64 ? 0x20b : 0x10b, k, "magic after %s", on);
    EQ(p.get_machine(), h[MACHINE], k, "machine after %s", on); EQ(p.get_number_of_sections(), h[NSEC], k, "sections after %s", on); EQ(p.get_time_date_stamp(), h[TS], k, "timestamp after %s", on);
    EQ(p.get_size_of_optional_header(), h[OPTSIZE], k, "optional header size after %s", on); EQ(p.get_characteristics(), h[CHARS], k, "characteristics after %s", on); EQ(p.get_ep(), h[EP], k, "entry point after %s", on);
    EQ(p.get_base_of_code(), h[BASECODE], k, "base of code after %s", on); EQ(p.get_image_base_32(), h[IMGBASE], k, "image base after %s", on); EQ(p.get_image_base_64(), h[IMGBASE], k, "image base after %s", on);
    p.get_image_base(a32); EQ(a32, h[IMGBASE], k, "image base by reference after %s", on); p.get_image_base(a64); EQ(a64, h[IMGBASE], k, "image base by reference (64) after %s", on);
    EQ(p.get_section_alignment(), h[SA], k, "section alignment after %s", on); EQ(p.get_file_alignment(), h[FA], k, "file alignment after %s", on);
    EQ(p.get_major_os_version(), h[OSMAJ], k, "OS version after %s", on); EQ(p.get_minor_os_version(), h[OSMIN], k, "OS version after %s", on);
    EQ(p.get_major_subsystem_version(), h[SUBMAJ], k, "subsystem version after %s", on); EQ(p.get_minor_subsystem_version(), h[SUBMIN], k, "subsystem version after %s", on);
    EQ(p.get_size_of_image(), h[SIZEIMG], k, "size of image after %s", on); EQ(p.get_size_of_headers(), h[SIZEHDR], k, "size of headers after %s", on); EQ(p.get_checksum(), h[CHK], k, "checksum after %s", on);
    EQ(p.get_subsystem(), h[SUBSYS], k, "subsystem after %s", on); EQ(p.is_gui(), h[SUBSYS] == 2, k, "is_gui after %s", on); EQ(p.is_console(), h[SUBSYS] == 3, k, "is_console after %s", on); EQ(p.get_dll_characteristics(), h[DLLCH], k, "DLL characteristics after %s", on);
#define SZ(name, f) EQ(p.get_##name##_64(), h[f], k, #name " after %s", on); EQ(p.get_##name##_32(), h[f], k, #name " (32) after %s", on); p.get_##name(a32); EQ(a32, h[f], k, #name " by reference (32) after %s", on); p.get_##name(a64); EQ(a64, h[f], k, #name " by reference (64) after %s", on);
    SZ(stack_size_reserve, STKRES) SZ(stack_size_commit, STKCOM) SZ(heap_size_reserve, HEAPRES) SZ(heap_size_commit, HEAPCOM)
#undef SZ
    EQ(p.get_number_of_rvas_and_sizes(), h[NRVA], k, "table length after %s", on);
    for(u32 i = 0; i < h[NRVA]; ++i) { EQ(p.get_directory_rva(i), m.dir[i][0], k, "directory %u after %s", i, on); EQ(p.get_directory_size(i), m.dir[i][1], k, "directory %u after %s", i, on); }
    EQ(p.has_reloc(), h[NRVA] > 5 && m.dir[5][0] && !(h[CHARS] & 1), k, "has_reloc after %s", on);
    CHECK(!p.has_overlay(), k, "a created image reports data after its last section");
    CHECK(p.get_full_headers_data().empty(), k, "a created image reports header bytes");
}
void run_case(Rng& r, u64 idx) {
    if(idx % 50 == 0) emptyRecords();
    Img m; m.pe64 = r.chance(50); bool dll = r.chance(50); static const u32 SAS[] = {0x1000, 0x1000, 0x2000, 0x10000, 0x200, 0x400, 0x100000};
    bool defaults = r.chance(15); u32 sa = defaults ? 0x1000 : SAS[r.below(7)]; u16 sub = static_cast<u16>(defaults ? 2 : r.chance(50) ? 3 : r.u32v()); if(defaults) dll = false;
    pe_base p = [&] { if(defaults) return m.pe64 ? pe_base(pe_properties_64()) : pe_base(pe_properties_32()); return m.pe64 ? pe_base(pe_properties_64(), sa, dll, sub) : pe_base(pe_properties_32(), sa, dll, sub); }();
    u64* h = m.h; u64 mask = m.pe64 ? ~0ull : 0xFFFFFFFFull;
    h[MACHINE] = 0x14C; h[OPTSIZE] = m.optFixed() + 128; h[MAGIC] = m.pe64 ? 0x20b : 0x10b; h[IMGBASE] = 0x400000; h[SA] = sa; h[FA] = 0x200; h[SIZEHDR] = 1024; h[SUBSYS] = sub;
    h[HEAPRES] = h[STKRES] = 0x100000; h[HEAPCOM] = h[STKCOM] = 0x1000; h[NRVA] = 16; h[CHARS] = 2 | 1 | (m.pe64 ? 0 : 0x100) | (dll ? 0x2000 : 0); h[SUBMAJ] = h[OSMAJ] = 5; h[SUBMIN] = h[OSMIN] = 1;
    Bytes dos(64, '\0'), stub; wrn(dos, 0, 0x5A4D, 2); wrn(dos, 2, 0x90, 2); wrn(dos, 4, 3, 2); wrn(dos, 8, 4, 2); wrn(dos, 12, 0xFFFF, 2); wrn(dos, 16, 0xB8, 2); wrn(dos, 24, 64, 2);
    std::string id = strf("%s image, alignment %x, dll %d, subsystem %u", m.pe64 ? "PE32+" : "PE32", sa, dll, sub);
    checkAll(p, m, dos, stub, "creating " + id); count("created");
    CHECK(p.get_image_sections().empty(), "sections-wrong", "a created image has sections");
    u64 tr = fnv(id); bool changed = false;
    auto edit = [&](int phase) {
        // phase 0: anything; 1: with directories in place (values the directories depend on stay)
        std::string op; u64 v = r.edge64(); u32 w = r.edge32(); u16 a = static_cast<u16>(r.chance(50) ? r.u32v() : r.edge32()), b = static_cast<u16>(r.u32v());
        switch(r.below(phase ? 17 : 25)) {
        case 0: op = strf("set_ep(%x)", w); p.set_ep(w); h[EP] = w; break;
        case 1: if(r.chance(50)) { op = strf("set_heap_size_commit(32 %x)", w); p.set_heap_size_commit(w); h[HEAPCOM] = w; } else { op = strf("set_heap_size_commit(64 %llx)", (unsigned long long)v); p.set_heap_size_commit(static_cast<uint64_t>(v)); h[HEAPCOM] = v & mask; } break;
        case 2: if(r.chance(50)) { op = strf("set_heap_size_reserve(32 %x)", w); p.set_heap_size_reserve(w); h[HEAPRES] = w; } else { op = strf("set_heap_size_reserve(64 %llx)", (unsigned long long)v); p.set_heap_size_reserve(static_cast<uint64_t>(v)); h[HEAPRES] = v & mask; } break;
        case 3: if(r.chance(50)) { op = strf("set_stack_size_commit(32 %x)", w); p.set_stack_size_commit(w); h[STKCOM] = w; } else { op = strf("set_stack_size_commit(64 %llx)", (unsigned long long)v); p.set_stack_size_commit(static_cast<uint64_t>(v)); h[STKCOM] = v & mask; } break;
        case 4: if(r.chance(50)) { op = strf("set_stack_size_reserve(32 %x)", w); p.set_stack_size_reserve(w); h[STKRES] = w; } else { op = strf("set_stack_size_reserve(64 %llx)", (unsigned long long)v); p.set_stack_size_reserve(static_cast<uint64_t>(v)); h[STKRES] = v & mask; } break;
        case 5: op = strf("set_checksum(%x)", w); p.set_checksum(w); h[CHK] = w; break;
        case 6: op = strf("set_time_date_stamp(%x)", w); p.set_time_date_stamp(w); h[TS] = w; break;
        case 7: op = strf("set_machine(%x)", a); p.set_machine(a); h[MACHINE] = a; break;
        case 8: op = strf("set_subsystem(%x)", a = r.chance(50) ? 2 + static_cast<u16>(r.below(2)) : a); p.set_subsystem(a); h[SUBSYS] = a; break;
        case 9: op = strf("set_os_version(%u, %u)", a, b); p.set_os_version(a, b); h[OSMAJ] = a; h[OSMIN] = b; break;
        case 10: op = strf("set_subsystem_version(%u, %u)", a, b); p.set_subsystem_version(a, b); h[SUBMAJ] = a; h[SUBMIN] = b; break;
        case 11: op = strf("set_base_of_code(%x)", w); p.set_base_of_code(w); h[BASECODE] = w; break;
        case 12: if(phase) a &= ~1; op = strf("set_characteristics_flags(%x)", a); p.set_characteristics_flags(a); h[CHARS] |= a; break;
        case 13: if(phase) a &= ~1; op = strf("clear_characteristics_flags(%x)", a); p.clear_characteristics_flags(a); h[CHARS] &= ~static_cast<u64>(a); break;
        case 14: op = strf("set_dll_characteristics(%x)", a); p.set_dll_characteristics(a); h[DLLCH] = a; break;
        case 15: op = strf("set_size_of_optional_header(%x)", a); p.set_size_of_optional_header(a); h[OPTSIZE] = a; break;
        case 16: { size_t f = 2 + 2 * r.below(29); op = strf("DOS header field at %zu", f); reinterpret_cast<u16*>(&p.get_dos_header())[f / 2] = a; wrn(dos, f, a, 2); break; }
        case 17: op = strf("set_characteristics(%x)", a); p.set_characteristics(a); h[CHARS] = a; break;
        case 18: op = strf("set_image_base(%x)", w); p.set_image_base(w); h[IMGBASE] = w; break;
        case 19: op = strf("set_image_base_64(%llx)", (unsigned long long)v); p.set_image_base_64(v); h[IMGBASE] = v & mask; break;
        case 20: op = strf("set_size_of_headers(%x)", w); p.set_size_of_headers(w); h[SIZEHDR] = w; break;
        case 21: { u32 fa = r.chance(60) ? 0x200u << r.below(12) : r.chance(50) ? static_cast<u32>(r.below(0x4000)) : w; op = strf("set_file_alignment(%x)", fa);
            if(fa < 512 || (fa & (fa - 1)) || fa > sa) mustRefuse("bad-alignment-accepted", op + " of " + id, [&] { p.set_file_alignment(fa); });
            else { p.set_file_alignment(fa); h[FA] = fa; } break; }
        case 22: { u32 d = static_cast<u32>(r.below(h[NRVA] + 1)); op = strf("set_directory(%u, %x, %x)", d, w, a);
            if(d >= h[NRVA]) { mustRefuse("beyond-table-accepted", op, [&] { p.set_directory_rva(d, w); }); mustRefuse("beyond-table-accepted", op, [&] { p.set_directory_size(d, w); }); break; }
            p.set_directory_rva(d, w); m.dir[d][0] = w; p.set_directory_size(d, a); m.dir[d][1] = a; break; }
        case 23: { u32 d = static_cast<u32>(r.below(h[NRVA] + 1)); bool had = d < h[NRVA] && m.dir[d][0]; op = strf("remove_directory(%u)", d);
            p.remove_directory(d); if(had) { m.dir[d][0] = m.dir[d][1] = 0; if(d == D_RELOC) { h[CHARS] |= 1; h[DLLCH] &= ~0x40ull; } if(d == D_EXPORT) h[CHARS] &= ~0x2000ull; } break; }
        default: { op = strf("set_stub_overlay"); stub = r.bytes(r.chance(30) ? 0 : r.below(200)); p.set_stub_overlay(stub); break; }
        }
        checkAll(p, m, dos, stub, op + " on " + id); tr = fnv(op, tr); changed = true; count("setters");
        if(r.chance(2)) { pe_base q(p); checkAll(q, m, dos, stub, "copying " + id); }
    };
    for(u64 n = r.below(25); n; --n) edit(0);
    // settle what the rest depends on
    u64 base = m.pe64 && r.chance(50) ? (r.edge64() & 0x7FFFFFFFFFFF0000ull) : static_cast<u64>(r.below(0x6000)) << 16;
    if(r.chance(50) || !m.pe64) { base &= 0x7FFFFFFF; p.set_image_base(static_cast<u32>(base)); } else p.set_image_base_64(base);
    h[IMGBASE] = base;
    for(u32 i = 0; i < 16; ++i) { if(m.dir[i][0] || m.dir[i][1]) { p.set_directory_rva(i, 0); p.set_directory_size(i, 0); m.dir[i][0] = m.dir[i][1] = 0; } }
    u32 hs = r.chance(50) ? 1024 : r.chance(30) ? 1 : static_cast<u32>(1 + r.below(0x3000)); p.set_size_of_headers(hs); h[SIZEHDR] = hs;
    checkAll(p, m, dos, stub, "settling " + id);
    // sections
    struct S { Bytes name; u32 chars, va, span; Bytes data; bool own; }; std::vector<S> secs;
    u64 next = 0; bool raised = false;
    auto addSection = [&](const Bytes& data, u32 vs, u32 wantVa, bool own) {
        section s; Bytes nm = r.chance(20) ? Bytes() : r.chance(20) ? r.nzbytes(r.below(14)) : r.ident(1, 12); s.set_name(nm); nm = nm.substr(0, 8);
        u32 ch = 0; bool fl[5]; for(bool& f : fl) f = r.chance(50);
        if(r.chance(40)) { ch = r.u32v(); s.set_characteristics(ch); }
        if(r.chance(70)) {
            s.readable(fl[0]).writeable(fl[1]).executable(fl[2]).shared(fl[3]).discardable(fl[4]);
            static const u32 B[5] = {0x40000000, 0x80000000, 0x20000000, 0x10000000, 0x02000000}; for(int i = 0; i < 5; ++i) ch = fl[i] ? ch | B[i] : ch & ~B[i];
        }
        if(r.chance(50)) s.set_raw_data(data); else s.get_raw_data() = data;
        if(vs) s.set_virtual_size(vs);
        if(wantVa) s.set_virtual_address(wantVa);
        u64 va = up(secs.empty() ? (wantVa ? wantVa : h[SIZEHDR]) : next, sa), rawA = up(data.size(), h[FA]), span = std::max(up(rawA, sa), up(vs, sa));
        std::string what = strf("adding section '%s' data %zu virtual %x address %x to %s", nm.c_str(), data.size(), vs, wantVa, id.c_str());
        if(data.empty() && !vs) { mustRefuse("empty-section-accepted", what, [&] { p.add_section(s); }); checkAll(p, m, dos, stub, "refused " + what); return; }
        section* g = 0; mustWork("section-refused", what, [&] { g = &p.add_section(s, r.chance(80)); });
        h[NSEC]++; next = va + span; h[SIZEIMG] = next;
        CHECK(g == &p.get_image_sections().back(), "sections-wrong", "%s: returned section is not the last one", what.c_str());
        secs.push_back(S{nm, ch, static_cast<u32>(va), static_cast<u32>(span), data, own});
        EQ(g->get_virtual_address(), va, "sections-wrong", "address when %s", what.c_str()); EQ(g->get_size_of_raw_data(), rawA, "sections-wrong", "raw size when %s", what.c_str());
        EQ(g->get_aligned_virtual_size(sa), span, "sections-wrong", "mapped size when %s", what.c_str());
        CHECK(g->get_virtual_size() >= vs && g->get_virtual_size() >= data.size() && up(g->get_virtual_size(), sa) == span, "sections-wrong", "virtual size %x when %s", g->get_virtual_size(), what.c_str());
        checkAll(p, m, dos, stub, what); count("sections"); tr = fnv(what, tr); changed = true;
    };
    auto checkSecs = [&](const section_list& l, const char* when, bool stored) {
        EQ(l.size(), secs.size(), "sections-wrong", "number of sections %s", when);
        for(size_t i = 0; i < l.size(); ++i) {
            const S& s = secs[i]; EQ(l[i].get_name(), s.name, "sections-wrong", "name of section %zu %s", i, when); EQ(l[i].get_characteristics(), s.chars, "sections-wrong", "flags of section %zu %s", i, when);
            EQ(l[i].readable(), !!(s.chars & 0x40000000), "sections-wrong", "readable %zu %s", i, when); EQ(l[i].writeable(), !!(s.chars & 0x80000000), "sections-wrong", "writeable %zu %s", i, when); EQ(l[i].executable(), !!(s.chars & 0x20000000), "sections-wrong", "executable %zu %s", i, when);
            EQ(l[i].shared(), !!(s.chars & 0x10000000), "sections-wrong", "shared %zu %s", i, when); EQ(l[i].discardable(), !!(s.chars & 0x02000000), "sections-wrong", "discardable %zu %s", i, when);
            EQ(l[i].get_virtual_address(), s.va, "sections-wrong", "address of section %zu %s", i, when);
            if(s.own) { EQ(l[i].get_aligned_virtual_size(sa), s.span, "sections-wrong", "mapped size of section %zu %s", i, when); Bytes d = l[i].get_raw_data(), e = s.data; if(stored) e.resize(up(e.size(), h[FA]), '\0'); CHECK(d == e, "sections-wrong", "bytes of section %zu %s: %s", i, when, diffAt(d, e).c_str()); }
        }
    };
    u64 ns = r.chance(10) ? 0 : r.chance(3) ? 20 + r.below(76) : r.below(5);
    for(u64 n = ns; n && secs.size() < 96; --n) {
        Bytes d = r.bytes(r.chance(20) ? 0 : 1 + r.below(ns > 10 ? 60 : 3000)); u32 vs = r.chance(50) ? 0 : static_cast<u32>(r.chance(50) ? 1 + r.below(0x8000) : d.size() + r.below(100));
        u32 wantVa = 0; if(r.chance(30)) { wantVa = static_cast<u32>(r.chance(50) ? h[SIZEHDR] + r.below(0x20000) : 0x1000 * (1 + r.below(64))); raised |= secs.empty(); }
        addSection(d, vs, wantVa, true);
    }
    checkSecs(p.get_image_sections(), "as added", false);
    for(u64 n = r.below(4); n; --n) edit(1);
    // directories, each in a section of its own
    std::vector<std::unique_ptr<Kind> > kinds;
    if(secs.size() < 60 && next < (24u << 20) && r.chance(65) && !(sa < 0x1000 && r.chance(50))) {
        std::vector<int> order; for(int i = 0; i < KIND_COUNT; ++i) if(r.chance(45)) order.push_back(i);
        r.shuffle(order);
        for(int ki : order) {
            if(next > (40u << 20)) break;   // the independent reader maps images up to 64 MB
            std::unique_ptr<Kind> k = makeKind(ki);
            // a section with room for the data that the directory refers to, then one for the directory
            addSection(r.bytes(700 + r.below(800)), 0, 0, false); S aux = secs.back();
            Ctx c; c.pe64 = m.pe64; c.base = base; for(const S& s : secs) if(&s != &secs.back()) c.targets.push_back(Region{s.va, static_cast<u64>(s.va) + s.span});
            c.aux.push_back(Region{aux.va, aux.va + static_cast<u64>(aux.data.size())});
            k->pe64 = m.pe64; k->base = base; k->gen(r, c, r.chance(80) ? 0 : 1);
            addSection(r.bytes(1 + r.below(50)), 0, 0, false);
            // flags of the section that holds the directory are the user's; some directories want them writable
            u32 off = static_cast<u32>(r.chance(50) ? 0 : r.below(40)); image_directory d; bool save = r.chance(80), strip = r.chance(50); std::string what = k->text() + " in " + id;
            u32 chBefore = p.get_characteristics(), dllBefore = p.get_dll_characteristics();
            mustWork("directory-refused", "adding " + what, [&] { d = k->rebuild(p, p.get_image_sections().back(), off, save, strip); });
            k->rebuilt = true;
            if(!save) { p.set_directory_rva(k->dir, d.get_rva()); p.set_directory_size(k->dir, d.get_size()); if(k->dir == D_RELOC) p.clear_characteristics_flags(1); }
            m.dir[k->dir][0] = d.get_rva(); m.dir[k->dir][1] = d.get_size();
            if(k->dir == D_IMPORT) { m.dir[D_IAT][0] = p.get_directory_rva(D_IAT); m.dir[D_IAT][1] = p.get_directory_size(D_IAT); }
            // header flags a directory may legitimately change
            if(k->dir == D_RELOC) { EQ(p.get_characteristics(), chBefore & ~1u, "header-byte-wrong", "characteristics after relocations"); EQ(p.get_dll_characteristics() & ~0x40u, dllBefore & ~0x40u, "header-byte-wrong", "DLL characteristics after relocations"); h[CHARS] &= ~1ull; h[DLLCH] = p.get_dll_characteristics(); }
            if(k->dir == D_EXPORT) { EQ(p.get_characteristics() & ~0x2000u, chBefore & ~0x2000u, "header-byte-wrong", "characteristics after exports"); h[CHARS] = p.get_characteristics(); }
            { const section& s = p.get_image_sections().back(); secs.back().span = s.get_aligned_virtual_size(sa); next = secs.back().va + static_cast<u64>(secs.back().span); h[SIZEIMG] = next;
              u32 ch = s.get_characteristics(); CHECK((ch & ~0x80000000u) == (secs.back().chars & ~0x80000000u), "sections-wrong", "section flags changed from %x to %x by %s", secs.back().chars, ch, what.c_str()); secs.back().chars = ch; }
            checkAll(p, m, dos, stub, "adding " + what); count("directories"); tr = fnv(what, tr); changed = true;
            kinds.push_back(std::move(k));
            if(r.chance(30)) edit(1);
        }
        checkSecs(p.get_image_sections(), "after adding directories", false);
    }
    if(kinds.empty() && r.chance(40)) { // entries that nothing reads on opening, and a shorter table
        static const u32 D[] = {D_SECURITY, D_ARCH, D_GLOBALPTR, D_DELAY, D_COM, D_RES15, D_EXCEPTION};
        for(u32 d : D) if(r.chance(40)) { m.dir[d][0] = r.edge32(); m.dir[d][1] = r.edge32(); p.set_directory_rva(d, m.dir[d][0]); p.set_directory_size(d, m.dir[d][1]); }
        if(r.chance(40)) { u32 n = static_cast<u32>(r.below(17)); p.set_number_of_rvas_and_sizes(n); h[NRVA] = n; for(u32 i = n; i < 16; ++i) m.dir[i][0] = m.dir[i][1] = 0; }
        for(u32 i = 0; i < h[NRVA]; ++i) { EQ(p.get_directory_rva(i), m.dir[i][0], "getter-wrong", "directory %u", i); EQ(p.get_directory_size(i), m.dir[i][1], "getter-wrong", "directory %u", i); }
    }
    // the written file
    bool strip = r.chance(20); if(strip) stub.clear();
    u64 hdr = up((strip ? 16 : 64) + up(stub.size(), 4) + 24 + m.optFixed() + 8 * h[NRVA] + 40 * secs.size(), h[FA]);
    Bytes f; std::string when = strf("writing %s with %zu sections, %zu directories, strip %d", id.c_str(), secs.size(), kinds.size(), strip);
    if(!secs.empty() && hdr > secs[0].va) { mustRefuse("headers-do-not-fit-accepted", when, [&] { writePe(p, strip); }); count("headers-do-not-fit"); return; }
    mustWork("write-refused", when, [&] { f = writePe(p, strip); }); note_input(f);
    Parsed q = parse(f, true); CHECK(q.ok(), "written-file-invalid", "%s: %s", when.c_str(), q.err.c_str());
    h[SIZEHDR] = hdr; h[OPTSIZE] = m.optFixed() + 8 * h[NRVA]; if(secs.empty()) h[SIZEIMG] = q.im.h[SIZEIMG]; if(strip) h[BASECODE] = 16;
    EQ(q.im.pe64, m.pe64, "written-wrong", "kind of the file"); 
    for(int i = 0; i < NHF; ++i) { if((m.pe64 ? HFI[i].size64 : HFI[i].size32) == 0) continue; if(strip && i == BASECODE) continue; EQ(q.im.h[i], h[i], "written-wrong", "%s in the file (%s)", HFI[i].name, when.c_str()); }
    for(u32 i = 0; i < h[NRVA]; ++i) { EQ(q.im.dir[i][0], m.dir[i][0], "written-wrong", "directory %u in the file", i); EQ(q.im.dir[i][1], m.dir[i][1], "written-wrong", "directory %u in the file", i); }
    CHECK(f.compare(0, strip ? 16 : 60, dos, 0, strip ? 16 : 60) == 0, "written-wrong", "DOS header in the file: %s", diffAt(f.substr(0, 60), dos).c_str());
    if(!strip) { Bytes st = stub; st.resize(up(st.size(), 4), '\0'); EQ(q.lfanew, 64 + st.size(), "written-wrong", "position of the PE header"); CHECK(f.compare(64, st.size(), st) == 0, "written-wrong", "stub in the file"); }
    EQ(q.im.secs.size(), secs.size(), "written-wrong", "sections in the file");
    for(size_t i = 0; i < secs.size(); ++i) {
        const S& s = secs[i]; const RSec& g = q.im.secs[i]; Bytes nm = s.name; nm.resize(8, '\0');
        EQ(g.name, nm, "written-wrong", "name of section %zu in the file", i); EQ(g.chars, s.chars, "written-wrong", "flags of section %zu in the file", i); EQ(g.va, s.va, "written-wrong", "address of section %zu in the file", i); EQ(g.span(sa), s.span, "written-wrong", "mapped size of section %zu in the file", i);
        Bytes e = s.own ? s.data : p.get_image_sections()[i].get_raw_data(), gd = g.data; gd.resize(std::max(gd.size(), e.size()), '\0'); e.resize(gd.size(), '\0');
        CHECK(gd == e, "written-wrong", "bytes of section %zu in the file: %s", i, diffAt(gd, e).c_str());
        EQ(g.relptr + g.lineptr + g.nrel + g.nline, 0u, "written-wrong", "unused fields of section %zu", i);
    }
    mustWork("reopen-refused", "reopening after " + when, [&] {
        pe_base z = openPe(f);
        Img zi = q.im; compareImage(z, zi, "reopened-wrong");
        EQ(!!(z.get_characteristics() & 0x2000), !!(h[CHARS] & 0x2000), "reopened-wrong", "DLL flag");
        checkSecs(z.get_image_sections(), "reopened", true);
        Bytes st = stub; st.resize(up(st.size(), 4), '\0'); if(!strip) CHECK(z.get_stub_overlay() == st, "reopened-wrong", "stub reopened: %s", diffAt(z.get_stub_overlay(), st).c_str());
        CHECK(!z.has_overlay(), "reopened-wrong", "data after the last section reported");
    });
    for(auto& k : kinds) {
        std::string e; try { e = k->decode(Mem(mapImage(f, q)), q.im.dir[k->dir][0], q.im.dir[k->dir][1]); } catch(const Bad& b) { e = b.why; }
        CHECK(e.empty(), "stored-wrong", "%s read independently (%s): %s", k->text().c_str(), when.c_str(), e.c_str());
        mustWork("reread-refused", "reading " + k->text() + " back", [&] { pe_base z = openPe(f); e = k->lib(z); });
        CHECK(e.empty(), "reread-wrong", "%s read back (%s): %s", k->text().c_str(), when.c_str(), e.c_str());
        count("directories-reread");
    }
    (void)raised; count("files-written"); if(changed && (!secs.empty() || !kinds.empty())) nontrivial(fnv(f, tr));
    sample(when);
}
