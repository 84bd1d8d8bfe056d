// Section edits against a model of the section table and the stored bytes
#include "../lib.h"
#include <algorithm>
extern const char* const PROPERTY = "C07";
extern const char* const RULE = "each case opens or creates an image and applies a random sequence of section operations (add, resize, expand, realign, alignment change, rename, flags, byte writes, prepare, recalculate) to attached and free sections with legal and illegal arguments, checking after every step the section table, image size, section count and every stored byte against a model, and at the end the written file; non-trivial: at least one accepted edit; distinct by image and operation trace";
u64 num_cases(bool t) { return t ? 800000 : 30000; }
void setup() {}
struct MS { u32 va, span, chars; std::string name; Bytes data; };
static Bytes z(const Bytes& b) { size_t n = b.size(); while(n && !b[n - 1]) --n; return b.substr(0, n); }
struct St { u16 n; u32 img, fa; std::vector<Bytes> raw, hdr; bool operator==(const St& o) const { return n == o.n && img == o.img && fa == o.fa && raw == o.raw && hdr == o.hdr; } };
static St state(const pe_base& p) {
    St s; s.n = p.get_number_of_sections(); s.img = p.get_size_of_image(); s.fa = p.get_file_alignment();
    for(const section& x : p.get_image_sections()) { s.raw.push_back(x.get_raw_data()); s.hdr.push_back(Bytes(reinterpret_cast<const char*>(&x.get_raw_header()), sizeof(pe_win::image_section_header))); }
    return s;
}
struct T {
    pe_base& p; std::vector<MS> m; u32 sa; std::string op; u32 firstMin;
    void check() {
        const section_list& l = p.get_image_sections();
        EQ(l.size(), m.size(), "section-count", "sections after %s", op.c_str());
        EQ(p.get_number_of_sections(), m.size(), "section-count", "header section count after %s", op.c_str());
        for(size_t i = 0; i < m.size(); ++i) {
            const section& s = l[i]; const MS& w = m[i];
            EQ(s.get_virtual_address(), w.va, "section-moved", "address of section %zu after %s", i, op.c_str());
            EQ(s.get_aligned_virtual_size(sa), w.span, "section-size", "mapped size of section %zu after %s", i, op.c_str());
            EQ(s.get_name(), w.name, "section-name", "name of section %zu after %s", i, op.c_str());
            EQ(s.get_characteristics(), w.chars, "section-flags", "flags of section %zu after %s", i, op.c_str());
            CHECK(s.get_raw_data().size() <= w.span, "section-data-outside", "section %zu holds %zu bytes but maps %x after %s", i, s.get_raw_data().size(), w.span, op.c_str());
            CHECK(s.get_size_of_raw_data() >= s.get_raw_data().size() || z(s.get_raw_data()).size() <= s.get_size_of_raw_data(), "section-data-lost", "section %zu raw size %x for %zu bytes after %s", i, s.get_size_of_raw_data(), s.get_raw_data().size(), op.c_str());
            CHECK(z(s.get_raw_data()) == z(w.data), "section-data-lost", "section %zu after %s: %s", i, op.c_str(), diffAt(z(s.get_raw_data()), z(w.data)).c_str());
            if(i) CHECK(w.va == m[i - 1].va + m[i - 1].span && w.va % sa == 0, "not-contiguous", "section %zu at %x after %s", i, w.va, op.c_str());
        }
        if(!m.empty()) EQ(p.get_size_of_image(), m.back().va + m.back().span, "size-of-image", "image size after %s", op.c_str());
    }
};
void run_case(Rng& r, u64 idx) {
    Img im; bool created = r.chance(25);
    pe_base p = [&] {
        if(created) { u32 sa = 0x200u << r.below(6); if(r.chance(50)) sa = 0x1000; if(r.chance(50)) { pe_base q(pe_properties_32(), sa, r.chance(50)); return q; } pe_base q(pe_properties_64(), sa, r.chance(50)); return q; }
        GenOpt o; o.zeroVsize = true; o.maxSecs = 5; o.maxSecData = 2500; if(r.chance(2)) { o.minSecs = 94; o.maxSecs = 96; }
        im = genImg(r, o); Bytes f = im.file(); note_input(f); return openPe(f);
    }();
    T t = {p, {}, p.get_section_alignment(), "opening", 0};
    for(const RSec& s : im.secs) { MS x; x.va = s.va; x.span = s.span(t.sa); x.chars = s.chars; x.name = s.cname(); x.data = s.data; t.m.push_back(x); }
    if(!created || r.chance(50)) { if(!im.secs.empty()) t.check(); }
    u64 tr = fnv(im.file().substr(0, 0), p.get_section_alignment() * 31 + idx); bool edited = false; int steps = static_cast<int>(r.range(3, 15));
    section other; other.set_raw_data(r.bytes(1 + r.below(600))); other.set_virtual_size(r.chance(50) ? 0 : static_cast<u32>(r.below(5000))); other.set_virtual_address(0x5000 * static_cast<u32>(r.below(3)));
    bool attachedElse = r.chance(30);
    if(attachedElse) count("free-sections");
    auto refuse = [&](const char* what, auto f) { St a = state(p); mustRefuse("illegal-accepted", t.op + ": " + what, f); St b = state(p); CHECK(a == b, "refusal-changed-image", "%s (%s) was refused but changed the image", t.op.c_str(), what); count("refusals"); };
    for(int st = 0; st < steps; ++st) {
        u32 op = static_cast<u32>(r.below(14)); section_list& l = p.get_image_sections(); size_t n = t.m.size(); u32 sa = t.sa;
        size_t i = n ? (r.chance(60) ? n - 1 : r.below(n)) : 0; bool last = n && i == n - 1;
        u32 v = 0;
        switch(op) {
        case 0: case 1: case 2: { // add
            section s; MS x; Bytes d = r.chance(20) ? Bytes() : r.bytes(1 + r.below(3000)); if(d.size() && r.chance(20)) d.resize(d.size() + r.below(300), '\0');
            u32 vs = r.chance(40) ? 0 : r.chance(50) ? static_cast<u32>(r.below(8000)) : r.chance(70) ? static_cast<u32>(d.size()) : r.edge32();
            std::string nm = r.ident(0, 12); s.set_name(nm); u32 ch = r.u32v(); s.set_characteristics(ch);
            s.set_raw_data(d); s.set_virtual_size(vs);
            u32 va = n == 0 && r.chance(30) ? (r.chance(80) ? 1 + static_cast<u32>(r.below(0x40000)) : r.chance(50) ? 0u - sa * static_cast<u32>(1 + r.below(6)) : r.edge32()) : r.chance(20) ? r.edge32() : 0; s.set_virtual_address(va);
            if(r.chance(10)) { s.get_raw_header().SizeOfRawData = r.edge32(); s.get_raw_header().PointerToRawData = r.edge32(); }
            bool au = r.chance(60); t.op = strf("add_section(%zu bytes, vsize %x, va %x, %d)", d.size(), vs, va, au); v = vs + static_cast<u32>(d.size()) * 7;
            x.data = d; x.name = nm.substr(0, 8); x.chars = ch;
            u64 at = n ? static_cast<u64>(t.m.back().va) + t.m.back().span : up(va ? va : p.get_size_of_headers(), sa), span = up(std::max<u64>(vs, up(d.size(), p.get_file_alignment())), sa);
            if(n >= 96) { refuse("97th section", [&] { p.add_section(s, au); }); break; }
            if(!vs && d.empty()) { refuse("empty section", [&] { p.add_section(s, au); }); break; }
            if(vs > 0x80000000u || at + span > 0xFFFFFFFFull) { refuse("beyond the address space", [&] { p.add_section(s, au); }); break; }
            x.va = static_cast<u32>(at); x.span = static_cast<u32>(span);
            t.m.push_back(x);
            mustWork("legal-refused", t.op, [&] { section& g = p.add_section(s, au); CHECK(&g == &p.get_image_sections().back(), "wrong-section-returned", "%s returned another section", t.op.c_str()); });
            { const section& g = p.get_image_sections().back(); EQ(g.get_size_of_raw_data() % p.get_file_alignment(), 0u, "raw-size-unaligned", "raw size after %s", t.op.c_str()); CHECK(g.get_size_of_raw_data() >= d.size(), "section-data-lost", "raw size %x after %s", g.get_size_of_raw_data(), t.op.c_str()); }
            CHECK(s.get_raw_data() == d && s.get_virtual_address() == va, "argument-changed", "%s changed its argument", t.op.c_str());
            edited = true; count("added"); break; }
        case 3: { // virtual size
            if(!n) break;
            u32 len = static_cast<u32>(t.m[i].data.size()), raw = l[i].get_size_of_raw_data();
            v = r.chance(15) ? 0 : r.chance(10) ? r.edge32() : len + static_cast<u32>(r.below(6000));
            t.op = strf("set_section_virtual_size(section %zu of %zu, %x)", i, n, v);
            if(!last) { refuse("not the last section", [&] { p.set_section_virtual_size(l[i], v); }); break; }
            if(!v && l[i].get_raw_data().empty()) { refuse("zero size of an empty section", [&] { p.set_section_virtual_size(l[i], 0); }); break; }
            if(v > 0x80000000u || t.m[i].va + up(v, sa) > 0xFFFFFFFFull) { refuse("beyond the address space", [&] { p.set_section_virtual_size(l[i], v); }); break; }
            if(v && up(v, sa) < up(std::max(len, raw), sa)) break; // dropping data on request
            mustWork("legal-refused", t.op, [&] { p.set_section_virtual_size(l[i], v); });
            t.m[i].span = static_cast<u32>(up(v ? v : raw, sa)); if(v) EQ(l[i].get_virtual_size(), v, "virtual-size", "%s", t.op.c_str());
            if(t.m[i].span < len) return; // zero with a stale raw size
            edited = true; break; }
        case 4: case 5: { // expand
            if(!n) break;
            bool raw = r.chance(50); MS& w = t.m[i]; u32 off = static_cast<u32>(r.below(w.span)), size = r.chance(10) ? r.edge32() : static_cast<u32>(r.below(5000)), rva = w.va + off;
            if(r.chance(10)) { rva = r.chance(50) ? w.va - 1 - static_cast<u32>(r.below(100)) : w.va + w.span + static_cast<u32>(r.below(100)); }
            pe_base::section_expand_type ty = raw ? pe_base::expand_section_raw : pe_base::expand_section_virtual; v = rva + size;
            t.op = strf("expand_section(section %zu of %zu at %x+%x, rva %x, size %x, %s)", i, n, w.va, w.span, rva, size, raw ? "raw" : "virtual");
            if(!last) { refuse("not the last section", [&] { p.expand_section(l[i], rva, size, ty); }); break; }
            if(rva < w.va || rva - w.va >= w.span) { refuse("address outside the section", [&] { p.expand_section(l[i], rva, size, ty); }); break; }
            u64 need = static_cast<u64>(rva - w.va) + size;
            if(need > 0x80000000u || w.va + up(need, sa) > 0xFFFFFFFFull) { refuse("beyond the address space", [&] { p.expand_section(l[i], rva, size, ty); }); break; }
            if(raw && need > (1u << 20)) break;
            u64 have = raw ? l[i].get_raw_data().size() : w.span; bool grow = std::max<i64>(0, static_cast<i64>(have) - static_cast<i64>(rva - w.va)) < static_cast<i64>(size), got = false;
            u32 vsOld = l[i].get_virtual_size();
            mustWork("legal-refused", t.op, [&] { got = p.expand_section(l[i], rva, size, ty); });
            EQ(got, grow, "expand-result", "result of %s", t.op.c_str());
            const section& c = l[i];
            if(grow && raw) { CHECK(c.get_raw_data().size() >= need, "expand-too-small", "%s left %zu bytes", t.op.c_str(), c.get_raw_data().size()); w.span = static_cast<u32>(up(std::max<u64>(vsOld, up(need, p.get_file_alignment())), sa)); }
            if(grow && !raw) w.span = static_cast<u32>(up(need, sa));
            CHECK(p.section_data_length_from_rva(c, rva, raw ? section_data_raw : section_data_virtual) >= size, "expand-too-small", "%s: remaining length %x", t.op.c_str(), p.section_data_length_from_rva(c, rva, raw ? section_data_raw : section_data_virtual));
            if(grow) edited = true; count(grow ? "expanded" : "expand-not-needed"); break; }
        case 6: { // realign
            if(!n || r.chance(10)) { u32 k = static_cast<u32>(n + r.below(3)); t.op = strf("realign_section(%u of %zu)", k, n); refuse("no such section", [&] { p.realign_section(k); }); break; }
            t.op = strf("realign_section(%zu of %zu)", i, n); Bytes before = l[i].get_raw_data(); u32 rs = l[i].get_size_of_raw_data();
            if(last && before.empty() && rs) break;
            p.realign_section(static_cast<u32>(i)); edited = true;
            if(last) { EQ(l[i].get_raw_data().size(), z(before).size(), "realign-last", "bytes of the last section after %s", t.op.c_str()); EQ(l[i].get_size_of_raw_data(), z(before).size(), "realign-last", "raw size after %s", t.op.c_str()); }
            else if(before.size() <= rs) { EQ(l[i].get_size_of_raw_data() % p.get_file_alignment(), 0u, "realign", "raw size after %s", t.op.c_str()); EQ(l[i].get_raw_data().size(), l[i].get_size_of_raw_data(), "realign", "bytes after %s", t.op.c_str()); }
            break; }
        case 7: case 8: { // alignment
            bool only = op == 8; u32 a = r.chance(70) ? 0x200u << r.below(8) : r.edge32(); v = a; u32 fa0 = p.get_file_alignment();
            t.op = strf("%s(%x) with section alignment %x", only ? "set_file_alignment" : "realign_file", a, sa);
            auto f = [&] { if(only) p.set_file_alignment(a); else p.realign_file(a); };
            bool pow2 = a && !(a & (a - 1));
            if(a < 512 || !pow2 || a > sa) { refuse("illegal alignment", f); EQ(p.get_file_alignment(), fa0, "refusal-changed-image", "alignment after %s", t.op.c_str()); break; }
            mustWork("legal-refused", t.op, f);
            EQ(p.get_file_alignment(), a, "alignment", "alignment after %s", t.op.c_str());
            if(!only) for(size_t k = 0; k + 1 < n; ++k) EQ(l[k].get_size_of_raw_data() % a, 0u, "realign", "raw size of section %zu after %s", k, t.op.c_str());
            edited = true; break; }
        case 9: { if(!n) break; std::string nm = r.ident(0, 14); if(r.chance(20)) nm = Bytes(r.below(20), 'x'); t.op = "set_name(" + nm + ")"; l[i].set_name(nm); t.m[i].name = nm.substr(0, 8); edited = true; break; }
        case 10: { if(!n) break; bool b = r.chance(50); u32 k = static_cast<u32>(r.below(5)); static const u32 f[] = {0x40000000, 0x80000000, 0x20000000, 0x10000000, 0x02000000}; t.op = strf("flag %x=%d", f[k], b);
            switch(k) { case 0: l[i].readable(b); break; case 1: l[i].writeable(b); break; case 2: l[i].executable(b); break; case 3: l[i].shared(b); break; default: l[i].discardable(b); }
            t.m[i].chars = b ? t.m[i].chars | f[k] : t.m[i].chars & ~f[k]; edited = true; break; }
        case 11: { // write through an address; recalculate; refresh totals
            if(!n) break; t.op = "byte write";
            if(l[i].get_raw_data().size() && r.chance(60)) { u32 o = static_cast<u32>(r.below(l[i].get_raw_data().size())); char c = static_cast<char>(r.u32v()); *p.section_data_from_rva(t.m[i].va + o) = c; if(t.m[i].data.size() <= o) t.m[i].data.resize(o + 1); t.m[i].data[o] = c; edited = true; }
            else if(r.chance(50)) { t.op = "update_image_size, update_number_of_sections"; p.update_image_size(); EQ(p.update_number_of_sections(), n, "section-count", "update_number_of_sections"); if(!n) return; }
            else { bool strip = r.chance(50); t.op = strf("recalculate_section_sizes(section %zu of %zu, %d)", i, n, strip); u32 vs = l[i].get_virtual_size(); u64 want = up(std::max<u64>(vs ? vs : 0, up(l[i].get_raw_data().size(), p.get_file_alignment())), sa);
                if(l[i].get_raw_data().empty() && !vs) break;
                p.recalculate_section_sizes(l[i], strip); if(last) t.m[i].span = static_cast<u32>(want); else EQ(want, t.m[i].span, "harness", "span %s", t.op.c_str()); edited = true; }
            break; }
        case 12: { // data of the last section replaced or grown in place; its sizes are refreshed by adding another section or by the rebuild
            if(!last || n >= 90 || r.chance(50)) break; section& s = l[i]; size_t was = s.get_raw_data().size(); u32 vs = s.get_virtual_size(); u64 room = vs ? std::min<u64>(down(up(vs, sa), p.get_file_alignment()), was + 4000) : 0;
            if(room <= was || up(vs, sa) < up(room, p.get_file_alignment())) break;
            size_t g = static_cast<size_t>(1 + r.below(room - was)); Bytes d = r.bytes(g); t.op = strf("%zu bytes appended to the %zu of the last section, then add_section", g, was);
            s.get_raw_data() += d; t.m[i].data = s.get_raw_data();
            section a; a.set_name("next"); a.set_raw_data(r.bytes(1 + r.below(600))); MS x; x.data = a.get_raw_data(); x.name = "next"; x.chars = a.get_characteristics();
            u64 at = static_cast<u64>(t.m.back().va) + t.m.back().span, span = up(up(x.data.size(), p.get_file_alignment()), sa); if(at + span > 0xFFFFFFFFull) return; x.va = static_cast<u32>(at); x.span = static_cast<u32>(span);
            mustWork("legal-refused", t.op, [&] { p.add_section(a); }); t.m.push_back(x); edited = true; count("grown-in-place"); break; }
        default: { // free sections: any size, never touching the image
            St a = state(p); t.op = "free section edits";
            EQ(p.section_attached(other), false, "attached-wrong", "free section attached"); if(n) EQ(p.section_attached(l[i]), true, "attached-wrong", "own section attached");
            Bytes d = other.get_raw_data();
            u32 vs = d.size() > 0 ? static_cast<u32>(d.size() + r.below(3000)) : 1; 
            { mustWork("legal-refused", "resizing a free section", [&] { p.set_section_virtual_size(other, vs); p.expand_section(other, other.get_virtual_address(), static_cast<u32>(d.size()) + 10, pe_base::expand_section_raw); }); EQ(other.get_raw_data().size(), d.size() + 10, "expand-too-small", "free section"); CHECK(other.get_raw_data().substr(0, d.size()) == d, "section-data-lost", "free section"); CHECK(other.get_aligned_virtual_size(sa) >= other.get_raw_data().size(), "section-size", "free section"); }
            { section q; q.set_raw_data(r.bytes(r.below(3000))); u32 w = static_cast<u32>(r.below(5000)); q.set_virtual_size(w); u64 len = q.get_raw_data().size();
              if(!len && !w) mustRefuse("illegal-accepted", "prepare_section of an empty section", [&] { p.prepare_section(q); });
              else { p.prepare_section(q); EQ(q.get_size_of_raw_data(), up(len, p.get_file_alignment()), "prepare-section", "raw size for %llu bytes", (unsigned long long)len); EQ(q.get_aligned_virtual_size(sa), up(std::max<u64>(w, up(len, p.get_file_alignment())), sa), "prepare-section", "mapped size for %llu bytes, vsize %x", (unsigned long long)len, w); } }
            CHECK(a == state(p), "other-image-changed", "editing a free section changed the image"); break; }
        }
        tr = tr * 1000003 + op * 64 + i * 7 + v;
        if(!t.m.empty() || !p.get_image_sections().empty()) t.check();
        count("operations");
        if(t.m.size() && t.m.back().va + static_cast<u64>(t.m.back().span) > (1u << 24)) count("large-images");
    }
    if(edited) { nontrivial(tr); if(idx < 30) sample(strf("%zu sections, last operation: %s", t.m.size(), t.op.c_str())); }
    if(t.m.empty()) return;
    Bytes out;
    try { out = writePe(p); } catch(const pe_exception& e) { u64 h = 64 + up(p.get_stub_overlay().size(), 4) + 24 + (p.get_pe_type() == pe_type_64 ? 112 : 96) + 8 * p.get_number_of_rvas_and_sizes() + 40 * t.m.size(); CHECK(up(h, p.get_file_alignment()) > t.m[0].va, "rebuild-refused", "%s", e.what()); count("rebuild-refused"); return; }
    Parsed q = parse(out, true); CHECK(q.ok(), "output-malformed", "%s", q.err.c_str());
    for(size_t i = 0; i < t.m.size(); ++i) { EQ(q.im.secs[i].va, t.m[i].va, "written-section", "address of section %zu", i); EQ(q.im.secs[i].span(t.sa), t.m[i].span, "written-section", "mapped size of section %zu", i); CHECK(z(q.im.secs[i].data) == z(t.m[i].data), "written-section", "bytes of section %zu: %s", i, diffAt(z(q.im.secs[i].data), z(t.m[i].data)).c_str()); EQ(q.im.secs[i].cname(), t.m[i].name, "written-section", "name of section %zu", i); EQ(q.im.secs[i].chars, t.m[i].chars, "written-section", "flags of section %zu", i); }
    if(q.im.h[SIZEIMG] < (1u << 30)) { pe_base p2 = openPe(out); count("reopened"); }
}
