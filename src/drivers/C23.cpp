// Exception table, .NET header and Rich data against encoded models
#include "../gens.h"
extern const char* const PROPERTY = "C23";
extern const char* const RULE = "each case encodes an exception table with unwind headers, a .NET header or a Rich block (any key, records and surroundings; or an absent or damaged one) into a generated image, has the library read it from a file, a copy or a memory dump and compares every value with the model; non-trivial: at least one value encoded; distinct by file";
u64 num_cases(bool t) { return t ? 1500000 : 60000; }
void setup() {}
template<class F> static void withImage(Rng& r, const Img& im, const Bytes& f, F fn) {
    note_input(f);
    if(r.chance(12) && dumpable(im)) { Bytes m = dumpImage(im, r); mustWork("open-refused", "opening a dump", [&] { pe_base p = openPe(m, true); fn(p); }); count("dumps-read"); return; }
    mustWork("open-refused", "opening " + im.describe(), [&] { pe_base p = openPe(f); if(r.chance(20)) { pe_base q(p); fn(q); } else fn(p); });
}
struct Fn { u32 begin, end, info; u32 ver, flags, prolog, codes, freg, foff; };
// Lets a structure reach into the part of its section that is zero-filled when mapped
static void intoTail(Rng& r, Img& im, u32 from) {
    u32 sa = static_cast<u32>(im.h[SA]); for(RSec& s : im.secs) { s.vsize = s.span(sa); if(from > s.va && from - s.va < s.data.size()) std::fill(s.data.begin() + (from - s.va), s.data.end(), '\0'); }
    trimZeros(im, r);
}
static void exceptions(Rng& r, Img& im) {
    Arena a(im, r); if(r.chance(30)) a.withHeaders(); std::vector<Fn> l; u64 n = r.chance(8) ? 0 : 1 + r.below(r.chance(15) ? 60 : 8); std::vector<Fn> infos;
    for(u64 i = 0; i < n; ++i) {
        Fn x; x.begin = r.chance(85) ? 1 + static_cast<u32>(r.below(0x100000)) : std::max<u32>(1, r.edge32()); x.end = r.chance(10) ? x.begin : r.chance(5) ? 0xFFFFFFFFu : static_cast<u32>(std::min<u64>(0xFFFFFFFFu, x.begin + static_cast<u64>(r.below(0x10000))));
        if(!infos.empty() && r.chance(20)) { Fn y = r.pick(infos); u32 b = x.begin, e = x.end; x = y; x.begin = b; x.end = e; l.push_back(x); count("shared-unwind-information"); continue; }
        u32 b0 = r.u32v() & 0xFF; x.ver = b0 & 7; x.flags = b0 >> 3; x.prolog = r.u32v() & 0xFF; x.codes = r.chance(40) ? 0 : static_cast<u32>(r.below(8)); u32 b3 = r.chance(30) ? 0 : r.u32v() & 0xFF; x.freg = b3 & 15; x.foff = b3 >> 4;
        Bytes u; u += static_cast<char>(b0); u += static_cast<char>(x.prolog); u += static_cast<char>(x.codes); u += static_cast<char>(b3); u += r.bytes(4 * ((x.codes + 1) / 2)); if(r.chance(30)) u += r.bytes(4);
        x.info = a.place(u, 4); if(const RSec* s = im.secAt(x.info)) if(x.info - s->va + 4 == s->span(static_cast<u32>(im.h[SA]))) count("unwind-information-ending-its-section");
        infos.push_back(x); l.push_back(x);
    }
    Bytes d; for(const Fn& x : l) { put32(d, x.begin); put32(d, x.end); put32(d, x.info); }
    u32 pad = r.chance(20) ? static_cast<u32>(r.below(4)) : 0; Bytes after = r.chance(50) ? Bytes() : r.nzbytes(12 * (1 + r.below(3)));
    if(n) { im.dir[D_EXCEPTION][1] = static_cast<u32>(d.size() + 12 * pad); d += Bytes(12 * pad, '\0'); if(pad) count("padded-tables"); im.dir[D_EXCEPTION][0] = a.place(d + after, 4); if(after.size()) count("tables-followed-by-data"); } else if(r.chance(50)) im.dir[D_EXCEPTION][1] = r.u32v();
    if(r.chance(30)) intoTail(r, im, 0);
    Bytes f = im.file();
    withImage(r, im, f, [&](const pe_base& p) {
        CHECK(p.has_exception_directory() == (n != 0), "presence-wrong", "has_exception_directory");
        exception_entry_list g; mustWork("exceptions-refused", strf("%llu entries", (unsigned long long)n), [&] { g = get_exception_directory_data(p); });
        CHECK(g.size() == l.size(), "exceptions-wrong", "%zu entries instead of %zu", g.size(), l.size());
        for(size_t i = 0; i < l.size(); ++i) { const exception_entry& e = g[i]; const Fn& x = l[i];
            EQ(e.get_begin_address(), x.begin, "exceptions-wrong", "entry %zu: begin", i); EQ(e.get_end_address(), x.end, "exceptions-wrong", "entry %zu: end", i); EQ(e.get_unwind_info_address(), x.info, "exceptions-wrong", "entry %zu: unwind address", i);
            EQ(e.get_unwind_info_version(), x.ver, "unwind-wrong", "entry %zu: version", i); EQ(e.get_flags(), x.flags, "unwind-wrong", "entry %zu: flags", i); EQ(e.get_size_of_prolog(), x.prolog, "unwind-wrong", "entry %zu: prolog", i); EQ(e.get_number_of_unwind_slots(), x.codes, "unwind-wrong", "entry %zu: slots", i);
            EQ(e.get_frame_pointer_register_number(), x.freg, "unwind-wrong", "entry %zu: register", i); EQ(e.get_scaled_rsp_offset(), x.foff, "unwind-wrong", "entry %zu: offset", i); EQ(e.uses_frame_pointer(), x.freg != 0, "unwind-wrong", "entry %zu: frame pointer", i);
            EQ(e.has_exception_handler(), (x.flags & 1) != 0, "unwind-wrong", "entry %zu: exception handler", i); EQ(e.has_termination_handler(), (x.flags & 2) != 0, "unwind-wrong", "entry %zu: termination handler", i); EQ(e.is_chaininfo(), (x.flags & 4) != 0, "unwind-wrong", "entry %zu: chained", i); }
        count("exception-entries", l.size());
    });
    if(n) nontrivial(fnv(f));
}
static void dotnet(Rng& r, Img& im) {
    Arena a(im, r); if(r.chance(30)) a.withHeaders(); bool have = r.chance(90); u32 w[16]; u16 maj = static_cast<u16>(r.u32v()), min = static_cast<u16>(r.u32v()); for(u32& x : w) x = r.chance(30) ? r.edge32() : r.u32v(); u32 flags = r.chance(50) ? static_cast<u32>(r.below(32)) : r.u32v();
    if(r.chance(30)) for(u64 k = r.below(15); k < 15; ++k) w[k] = 0;
    Bytes h; put32(h, r.chance(80) ? 72 : r.u32v()); put16(h, maj); put16(h, min); put32(h, w[0]); put32(h, w[1]); put32(h, flags); for(int i = 2; i < 15; ++i) put32(h, w[i]);
    if(have) { im.dir[D_COM][0] = a.place(h, r.chance(80) ? 4 : 1); im.dir[D_COM][1] = 72; } else if(r.chance(50)) im.dir[D_COM][1] = 72;
    if(have && r.chance(30)) { size_t k = h.find_last_not_of('\0'); u32 at = static_cast<u32>(im.dir[D_COM][0]); intoTail(r, im, at + static_cast<u32>(k) + 1);
        for(const RSec& s : im.secs) if(at >= s.va && at - s.va < s.data.size() && at - s.va + 72 > s.data.size()) count("headers-reaching-into-the-zero-tail"); }
    Bytes f = im.file();
    withImage(r, im, f, [&](const pe_base& p) {
        CHECK(p.is_dotnet() == have, "presence-wrong", "is_dotnet");
        if(!have) { mustRefuse("dotnet-invented", ".NET header of a native image", [&] { get_basic_dotnet_info(p); }); count("native-images"); return; }
        mustWork("dotnet-refused", ".NET header", [&] { const basic_dotnet_info i = get_basic_dotnet_info(p);
            EQ(i.get_major_runtime_version(), maj, "dotnet-wrong", "major"); EQ(i.get_minor_runtime_version(), min, "dotnet-wrong", "minor"); EQ(i.get_flags(), flags, "dotnet-wrong", "flags");
            EQ(i.is_il_only(), (flags & 1) != 0, "dotnet-wrong", "IL only of %x", flags); EQ(i.is_32bit_required(), (flags & 2) != 0, "dotnet-wrong", "32-bit of %x", flags); EQ(i.is_il_library(), (flags & 4) != 0, "dotnet-wrong", "library of %x", flags); EQ(i.is_native_entry_point(), (flags & 16) != 0, "dotnet-wrong", "native entry of %x", flags);
            u32 g[15] = {i.get_rva_of_metadata(), i.get_size_of_metadata(), i.get_entry_point_rva_or_token(), i.get_rva_of_resources(), i.get_size_of_resources(), i.get_rva_of_strong_name_signature(), i.get_size_of_strong_name_signature(), i.get_rva_of_code_manager_table(), i.get_size_of_code_manager_table(), i.get_rva_of_vtable_fixups(), i.get_size_of_vtable_fixups(), i.get_rva_of_export_address_table_jumps(), i.get_size_of_export_address_table_jumps(), i.get_rva_of_managed_native_header(), i.get_size_of_managed_native_header()};
            for(int k = 0; k < 15; ++k) EQ(g[k], w[k], "dotnet-wrong", ".NET field %d", k); count("dotnet-headers"); });
    });
    nontrivial(fnv(f));
}
struct Rec { u32 num, ver, times; };
static size_t findWord(const Bytes& b, u32 w) { for(size_t i = 0; i + 4 <= b.size(); ++i) if(rd32(b, i) == w) return i; return Bytes::npos; }
static void rich(Rng& r, Img& im) {
    const u32 R = 0x68636952, D = 0x536e6144; u32 key; switch(r.below(6)) { case 0: key = 0; break; case 1: key = r.edge32(); break; default: key = r.u32v(); }
    Bytes pre = r.chance(15) ? Bytes() : r.chance(50) ? r.bytes(64) : r.bytes(r.below(120)), post; std::vector<Rec> l; u64 n = r.chance(8) ? 0 : 1 + r.below(r.chance(10) ? 80 : 12);
    for(u64 i = 0; i < n; ++i) { Rec x; x.num = r.u32v() & 0xFFFF; x.ver = r.chance(20) ? 0 : r.u32v() & 0xFFFF; x.times = r.chance(70) ? 1 + static_cast<u32>(r.below(1000)) : r.edge32(); l.push_back(x); }
    Bytes blk; put32(blk, D ^ key); for(int i = 0; i < 3; ++i) put32(blk, key); for(const Rec& x : l) { put32(blk, (x.num << 16 | x.ver) ^ key); put32(blk, x.times ^ key); }
    Bytes end; put32(end, R); put32(end, key); if(r.chance(60)) post = r.chance(50) ? Bytes(4 * r.below(8), '\0') : r.bytes(r.below(60));
    Bytes stub = pre + blk + end + post; bool damaged = false; size_t at = pre.size() + blk.size();
    switch(r.below(12)) { // absent and damaged forms
    case 0: damaged = true; stub = r.chance(50) ? pre : pre + blk; break;                                   // no end mark
    case 1: damaged = true; stub = pre + blk + end.substr(0, 4 + r.below(4)); break;                         // the end mark ends the area
    case 2: damaged = true; stub = pre + blk.substr(4) + end + post; break;                                  // no start mark
    case 3: damaged = true; stub = pre + end + blk + post; at = pre.size(); break;                           // start mark only behind the end mark
    case 4: damaged = true; stub = pre + blk; { Bytes e; put32(e, R); put32(e, key ^ (1 + r.below(0xFFFFFFFE))); stub += e + post; } break;   // another key
    case 5: damaged = true; stub = pre + blk.substr(0, 4 + 4 * r.below(3)) + end; at = stub.size() - 8; break; // shorter than its fixed part
    case 6: damaged = true; stub = pre.substr(0, r.below(8)) + (r.chance(50) ? Bytes("Rich").substr(0, r.below(5)) : Bytes()); break;
    default: break;
    }
    // the marks must be where they are meant to be
    if(!damaged) { if(findWord(stub, R) != at || findWord(stub, D ^ key) != pre.size()) throw CaseSkip(); }
    else { size_t q = findWord(stub, R); if(q != Bytes::npos && q + 8 <= stub.size()) { size_t d = findWord(stub, D ^ rd32(stub, q + 4)); if(d != Bytes::npos && d + 16 + 8 <= q) throw CaseSkip(); } }
    bool viaFile = stub.size() % 4 == 0 && r.chance(80); Bytes f;
    if(viaFile) { im.stub = stub; Rng r2(5); layout(im, r2, false); }
    f = im.file();
    auto chk = [&](const pe_base& p, const char* how) {
        rich_data_list g; mustWork("rich-refused", how, [&] { g = get_rich_data(p); });
        CHECK(g.size() == (damaged ? 0 : l.size()), "rich-wrong", "%s: %zu records instead of %zu%s, area of %zu bytes", how, g.size(), damaged ? 0 : l.size(), damaged ? " (damaged)" : "", stub.size());
        if(!damaged) for(size_t i = 0; i < l.size(); ++i) { EQ(g[i].get_number(), l[i].num, "rich-wrong", "%s: record %zu number", how, i); EQ(g[i].get_version(), l[i].ver, "rich-wrong", "%s: record %zu version", how, i); EQ(g[i].get_times(), l[i].times, "rich-wrong", "%s: record %zu times", how, i); }
        count(damaged ? "rich-absent-or-damaged" : "rich-records", damaged ? 1 : l.size()); };
    withImage(r, im, f, [&](pe_base& p) {
        if(!viaFile) { p.set_stub_overlay(stub); chk(p, "set area"); count("areas-set"); } else chk(p, "opened");
        if(r.chance(15) && im.secs.size() && stub.size() % 4 == 0) { Bytes o; try { o = writePe(p); } catch(const pe_exception&) { return; } pe_base q = openPe(o); chk(q, "rewritten"); count("areas-rewritten"); }
        if(r.chance(10)) { rich_data d; EQ(d.get_number() | d.get_version() | d.get_times(), 0, "rich-wrong", "fresh record"); p.strip_stub_overlay(); CHECK(get_rich_data(p).empty(), "rich-wrong", "records without an area"); }
    });
    nontrivial(fnv(stub));
}
void run_case(Rng& r, u64 idx) {
    GenOpt o; o.minSecs = 1; o.maxSecs = 4; o.maxSecData = r.chance(20) ? 4000 : 1200; o.fullDirs = true; if(idx % 3 == 0) o.pe64 = 1;
    Img im = genImg(r, o); if(r.chance(30)) { im.hdrtail.resize(im.hdrtail.size() + r.below(600), '\0'); Rng r2(idx); layout(im, r2, false); }
    switch(idx % 3) { case 0: exceptions(r, im); break; case 1: dotnet(r, im); break; default: rich(r, im); }
}
