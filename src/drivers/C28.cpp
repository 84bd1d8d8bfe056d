// Data directory table against a model of its entries
#include "../lib.h"
#include <algorithm>
extern const char* const PROPERTY = "C28";
extern const char* const RULE = "each case opens a generated image (table length 0..16, random entries) or creates one, applies a random sequence of directory queries and edits compared step by step with a table model (including every header byte outside the table), then rebuilds and decodes the table independently; non-trivial: at least one edit; distinct by image and operation trace";
u64 num_cases(bool t) { return t ? 1500000 : 60000; }
void setup() {}
struct M { u32 n; u32 e[16][2]; bool seen[16]; };
static Bytes nt(const pe_base& p) { return Bytes(p.get_nt_headers_ptr(), p.get_sizeof_nt_header()); }
static u32 tbl(const pe_base& p) { return p.get_pe_type() == pe_type_64 ? 24 + 112 : 24 + 96; }
void run_case(Rng& r, u64 idx) {
    GenOpt o; o.maxSecs = 3; o.maxSecData = 300; o.odd = r.chance(50);
    Img im; pe_base p = [&] {
        if(r.chance(15)) { // created images have sixteen empty entries
            bool dll = r.chance(50);
            if(r.chance(50)) { pe_base q(pe_properties_32(), 0x1000, dll); return q; }
            pe_base q(pe_properties_64(), 0x1000, dll); return q;
        }
        im = genImg(r, o);
        im.h[NRVA] = r.below(17); im.h[CHARS] = r.u32v() & 0xFFFF; Rng r2(idx); layout(im, r2, false);
        for(u32 i = 0; i < im.ndirs(); ++i) if(i != D_DEBUG && r.chance(60)) { im.dir[i][0] = r.chance(50) ? 0x1000 + r.below(0x3000) : r.edge32(); im.dir[i][1] = r.edge32(); if(r.chance(20)) im.dir[i][0] = 0; }
        Bytes f = im.file(); note_input(f);
        return openPe(f);
    }();
    M m; m.n = p.get_number_of_rvas_and_sizes(); bool created = im.h[MAGIC] == 0;
    CHECK(m.n == (created ? 16 : im.ndirs()), "table-length", "table length %u", m.n);
    for(u32 i = 0; i < 16; ++i) { m.e[i][0] = created ? 0 : im.dir[i][0]; m.e[i][1] = created ? 0 : im.dir[i][1]; m.seen[i] = false; }
    u64 tr = fnv(nt(p)); bool edited = false;
    auto id = [&]() -> u32 { u64 k = r.below(12); return k == 0 ? 16 : k == 1 ? r.edge32() : k == 2 ? m.n : k == 3 && m.n ? m.n - 1 : k == 4 ? 12 : k == 5 ? 5 : static_cast<u32>(r.below(17)); };
    auto check = [&](const char* op) {
        EQ(p.get_number_of_rvas_and_sizes(), m.n, "table-length", "table length after %s", op);
        for(u32 i = 0; i < m.n; ++i) {
            EQ(p.get_directory_rva(i), m.e[i][0], "entry-wrong", "address of %u after %s (length %u)", i, op, m.n); EQ(p.get_directory_size(i), m.e[i][1], "entry-wrong", "size of %u after %s", i, op);
            EQ(p.directory_exists(i), m.e[i][0] != 0, "presence-wrong", "presence of %u after %s (length %u)", i, op, m.n);
        }
    };
    for(int step = 0; step < 12; ++step) {
        Bytes before = nt(p); u32 t0 = tbl(p); Bytes secs0; for(const section& s : p.get_image_sections()) secs0 += s.get_raw_data();
        u32 i = id(), v = r.chance(20) ? 0 : r.edge32(), op = static_cast<u32>(r.below(8)); tr = tr * 1000003 + op * 131 + i * 17 + v;
        u32 flagsBefore = p.get_characteristics(), dllBefore = p.get_dll_characteristics(), wantF = flagsBefore, wantD = dllBefore;
        std::string name; bool tableMay = false;
        switch(op) {
        case 0: name = strf("set_directory_rva(%u, %x)", i, v);
            if(i >= m.n) { mustRefuse("beyond-table-accepted", name, [&] { p.set_directory_rva(i, v); }); break; }
            p.set_directory_rva(i, v); m.e[i][0] = v; edited = tableMay = true; break;
        case 1: name = strf("set_directory_size(%u, %x)", i, v);
            if(i >= m.n) { mustRefuse("beyond-table-accepted", name, [&] { p.set_directory_size(i, v); }); break; }
            p.set_directory_size(i, v); m.e[i][1] = v; edited = tableMay = true; break;
        case 2: case 3: { name = strf("remove_directory(%u)", i);
            bool had = i < m.n && m.e[i][0];
            try { p.remove_directory(i); } catch(const pe_exception&) { CHECK(i >= m.n, "remove-refused", "%s refused", name.c_str()); }
            if(had) {
                m.e[i][0] = m.e[i][1] = 0; edited = tableMay = true;
                if(i == D_RELOC) { wantF |= 1; wantD &= ~0x40u; count("relocations-removed"); }
                if(i == D_EXPORT) wantF &= ~0x2000u;
            }
            break; }
        case 4: { u32 min = static_cast<u32>(r.below(4) == 0 ? r.edge32() : r.below(18)); bool iat = r.chance(50); name = strf("strip_data_directories(%u, %d)", min, iat);
            u32 k = m.n; while(k > 0 && k > min && (!m.e[k - 1][0] || (k - 1 == D_IAT && iat))) --k;
            u32 got = p.strip_data_directories(min, iat);
            EQ(got, k, "strip-count", "count returned by %s from %u", name.c_str(), m.n);
            for(u32 j = k; j < m.n; ++j) m.seen[j] = true;
            m.n = k; edited = tableMay = true; count("strips"); break; }
        case 5: { u32 n = r.chance(20) ? 17 + static_cast<u32>(r.chance(50) ? r.below(5) : r.u32v() & 0x7FFFFFFF) : static_cast<u32>(r.below(17)); name = strf("set_number_of_rvas_and_sizes(%u)", n);
            if(n > 16) { mustRefuse("beyond-table-accepted", name, [&] { p.set_number_of_rvas_and_sizes(n); }); break; }
            p.set_number_of_rvas_and_sizes(n);
            for(u32 j = n; j < m.n; ++j) m.seen[j] = true;
            u32 old = m.n; m.n = n;
            for(u32 j = old; j < n; ++j) if(m.seen[j]) { m.e[j][0] = p.get_directory_rva(j); m.e[j][1] = p.get_directory_size(j); }   // what a hidden entry holds when shown again is not specified
            edited = tableMay = true; break; }
        default: name = strf("queries(%u)", i);
            EQ(p.directory_exists(i), i < m.n && m.e[i][0], "presence-wrong", "presence of %u (length %u)", i, m.n);
            if(i >= m.n) {
                mustRefuse("beyond-table-accepted", strf("get_directory_rva(%u) of %u", i, m.n), [&] { p.get_directory_rva(i); });
                mustRefuse("beyond-table-accepted", strf("get_directory_size(%u) of %u", i, m.n), [&] { p.get_directory_size(i); });
                mustRefuse("beyond-table-accepted", strf("section_from_directory(%u) of %u", i, m.n), [&] { p.section_from_directory(i); });
            } else if(!created) {
                const RSec* s = im.secAt(m.e[i][0]);
                if(!s) mustRefuse("section-of-directory", strf("section_from_directory(%u), address %x", i, m.e[i][0]), [&] { p.section_from_directory(i); });
                else { const pe_base& c = p; EQ(p.section_from_directory(i).get_virtual_address(), s->va, "section-of-directory", "section of directory %u", i); EQ(c.section_from_directory(i).get_virtual_address(), s->va, "section-of-directory", "section of directory %u", i); }
            }
        }
        check(name.c_str());
        EQ(p.get_characteristics(), wantF, "flags-wrong", "characteristics after %s", name.c_str());
        EQ(p.get_dll_characteristics(), wantD, "flags-wrong", "DLL characteristics after %s", name.c_str());
        Bytes after = nt(p);
        // every other header byte is untouched
        auto mask = [&](Bytes b) { if(tableMay) { u32 a = t0 - 4; std::fill(b.begin() + a, b.end(), 0); } b[22] = b[23] = 0; b[94] = b[95] = 0; return b; };
        CHECK(mask(before) == mask(after), "other-field-changed", "%s: %s", name.c_str(), diffAt(mask(after), mask(before)).c_str());
        Bytes secs1; for(const section& s : p.get_image_sections()) secs1 += s.get_raw_data();
        CHECK(secs1 == secs0, "other-field-changed", "section bytes changed by %s", name.c_str());
        auto ex = [&](u32 d) { return d < m.n && m.e[d][0]; };
        EQ(p.has_exports(), ex(0), "has-wrong", "has_exports"); EQ(p.has_imports(), ex(1), "has-wrong", "has_imports"); EQ(p.has_resources(), ex(2), "has-wrong", "has_resources");
        EQ(p.has_exception_directory(), ex(3), "has-wrong", "has_exception_directory"); EQ(p.has_security(), ex(4), "has-wrong", "has_security");
        EQ(p.has_reloc(), ex(5) && !(wantF & 1), "has-wrong", "has_reloc"); EQ(p.has_debug(), ex(6), "has-wrong", "has_debug"); EQ(p.has_tls(), ex(9), "has-wrong", "has_tls");
        EQ(p.has_config(), ex(10), "has-wrong", "has_config"); EQ(p.has_bound_import(), ex(11), "has-wrong", "has_bound_import"); EQ(p.has_delay_import(), ex(13), "has-wrong", "has_delay_import"); EQ(p.is_dotnet(), ex(14), "has-wrong", "is_dotnet");
        count("operations");
    }
    if(edited) nontrivial(tr);
    // written file
    Bytes out; u32 L = m.n;
    if(p.get_image_sections().empty() && p.get_size_of_headers() > 0x100000) return;
    bool stubStrip = r.chance(30);
    try { out = writePe(p, stubStrip, true, false); }
    catch(const pe_exception&) { count("rebuild-refused"); if(p.get_image_sections().empty() || im.secs[0].va > 0x4000) fail("rebuild-refused", "rebuild refused although headers fit"); return; }
    Parsed q = parse(out, false);
    CHECK(q.ok(), "output-malformed", "%s", q.err.c_str());
    EQ(q.im.h[NRVA], L, "written-table", "table length in the file"); EQ(q.im.h[OPTSIZE], q.im.optFixed() + 8 * L, "written-table", "optional header size for %u entries", L);
    for(u32 i = 0; i < L; ++i) { EQ(q.im.dir[i][0], m.e[i][0], "written-table", "address of %u in the file", i); EQ(q.im.dir[i][1], m.e[i][1], "written-table", "size of %u in the file", i); }
    if(L > D_DEBUG && m.e[D_DEBUG][0]) return;
    pe_base p2 = openPe(out);
    EQ(p2.get_number_of_rvas_and_sizes(), L, "written-table", "table length reopened");
    for(u32 i = 0; i < L; ++i) { EQ(p2.get_directory_rva(i), m.e[i][0], "written-table", "address of %u reopened", i); EQ(p2.get_directory_size(i), m.e[i][1], "written-table", "size of %u reopened", i); }
    mustRefuse("beyond-table-accepted", "directory past the table of the reopened file", [&] { p2.get_directory_rva(L); });
    count("tables-written");
}
