// A long history of edits, rebuilds, saves and reopenings
#include "../frame.h"
#include "../sweep.h"
extern const char* const PROPERTY = "C35";
extern const char* const RULE = "each case takes one image (generated, created or shipped) through 4 to 24 random operations - writing any of seven kinds of directories at any place, adding sections, growing the last one, renaming, changing header fields, patching memory, changing alignments, realigning, removing directory entries, rebasing with relocations, copying, saving and reopening - and after each one compares the section table, all mapped bytes, the directory table, the header fields and every directory written so far with a model carried through the whole history; non-trivial: at least two operations and one save; distinct by image and history";
u64 num_cases(bool t) { return t ? 600000 : 16000; }
void setup() { realFiles(); }
namespace {
Bytes mapped(const section& s, u32 sa) { u64 span = s.get_aligned_virtual_size(sa); const Bytes& d = s.get_raw_data(); size_t n = static_cast<size_t>(std::min<u64>(d.size(), span)); while(n && !d[n - 1]) --n; return d.substr(0, n); }
struct MSec { std::string name; u32 va, chars; Bytes mem; };
struct Field { const char* name; std::function<u64(const pe_base&)> get; std::function<void(pe_base&, u64)> set; u64 mask; };
const std::vector<Field>& fields() {
    static std::vector<Field> f;
    if(!f.empty()) return f;
#define F(n, m) f.push_back(Field{#n, [](const pe_base& p) { return static_cast<u64>(p.get_##n()); }, [](pe_base& p, u64 v) { p.set_##n(static_cast<decltype(p.get_##n())>(v)); }, m})
    F(ep, 0xFFFFFFFF); F(time_date_stamp, 0xFFFFFFFF); F(subsystem, 0xFFFF); F(machine, 0xFFFF); F(base_of_code, 0xFFFFFFFF); F(checksum, 0xFFFFFFFF);
    f.push_back(Field{"characteristics", [](const pe_base& p) { return static_cast<u64>(p.get_characteristics() & ~1u); }, [](pe_base& p, u64 v) { p.set_characteristics(static_cast<u16>((v & ~1u) | (p.get_characteristics() & 1))); }, 0xFFFE});
    f.push_back(Field{"dll characteristics", [](const pe_base& p) { return static_cast<u64>(p.get_dll_characteristics() & ~0x40u); }, [](pe_base& p, u64 v) { p.set_dll_characteristics(static_cast<u16>((v & ~0x40u) | (p.get_dll_characteristics() & 0x40))); }, 0xFFBF});
    f.push_back(Field{"OS version", [](const pe_base& p) { return static_cast<u64>(p.get_major_os_version()) << 16 | p.get_minor_os_version(); }, [](pe_base& p, u64 v) { p.set_os_version(static_cast<u16>(v >> 16), static_cast<u16>(v)); }, 0xFFFFFFFF});
    f.push_back(Field{"subsystem version", [](const pe_base& p) { return static_cast<u64>(p.get_major_subsystem_version()) << 16 | p.get_minor_subsystem_version(); }, [](pe_base& p, u64 v) { p.set_subsystem_version(static_cast<u16>(v >> 16), static_cast<u16>(v)); }, 0xFFFFFFFF});
#define G(n) f.push_back(Field{#n, [](const pe_base& p) { return p.get_##n##_64(); }, [](pe_base& p, u64 v) { p.set_##n(v); }, ~0ull})
    G(heap_size_commit); G(heap_size_reserve); G(stack_size_commit); G(stack_size_reserve);
    return f;
}
struct Hist {
    std::unique_ptr<pe_base> pp; std::vector<Done> done; std::vector<MSec> secs; std::vector<u64> fv; u64 base; u32 dirs[16][2]; u32 sa; std::string log; u64 writes, ops; Bytes stub; bool stubKept;
    std::vector<std::pair<std::string, std::string> > own; // what the shipped image's own directories said
    pe_base& p() { return *pp; }
    void sync() {
        pe_base& q = p(); secs.clear(); for(const section& s : q.get_image_sections()) secs.push_back(MSec{s.get_name(), s.get_virtual_address(), s.get_characteristics(), mapped(s, q.get_section_alignment())});
        fv.clear(); for(const Field& f : fields()) fv.push_back(f.get(q)); base = q.get_image_base_64(); sa = q.get_section_alignment(); for(u32 i = 0; i < 16; ++i) { dirs[i][0] = q.get_directory_rva(i); dirs[i][1] = q.get_directory_size(i); }
    }
    void forget(const char* what) { for(size_t i = 0; i < own.size();) if(own[i].first == what) own.erase(own.begin() + static_cast<long>(i)); else ++i; }
    // the image against the model of the whole history
    void verify(const std::string& what) {
        const pe_base& q = p(); const section_list& l = q.get_image_sections(); const char* w = what.c_str();
        CHECK(l.size() == secs.size() && q.get_number_of_sections() == secs.size(), "sections-changed", "%s: %zu sections (header says %u), expected %zu; history:%s", w, l.size(), q.get_number_of_sections(), secs.size(), log.c_str());
        u64 end = 0;
        for(size_t i = 0; i < l.size(); ++i) {
            CHECK(l[i].get_name() == secs[i].name && l[i].get_virtual_address() == secs[i].va && l[i].get_characteristics() == secs[i].chars, "section-header-changed", "%s: section %zu is %s at %x (%x), expected %s at %x (%x); history:%s", w, i, l[i].get_name().c_str(), l[i].get_virtual_address(), l[i].get_characteristics(), secs[i].name.c_str(), secs[i].va, secs[i].chars, log.c_str());
            Bytes m = mapped(l[i], sa); CHECK(m == secs[i].mem, "memory-changed", "%s: mapped bytes of section %zu: %s; history:%s", w, i, diffAt(m, secs[i].mem).c_str(), log.c_str()); count("bytes-compared", m.size());
            CHECK(l[i].get_virtual_address() >= end, "sections-overlap", "%s: section %zu at %x, the one before ends at %llx; history:%s", w, i, l[i].get_virtual_address(), (unsigned long long)end, log.c_str());
            end = static_cast<u64>(l[i].get_virtual_address()) + l[i].get_aligned_virtual_size(sa);
        }
        for(size_t i = 0; i < fv.size(); ++i) EQ(fields()[i].get(q), fv[i], "field-changed", "%s: %s; history:%s", w, fields()[i].name, log.c_str());
        EQ(q.get_image_base_64(), base, "field-changed", "%s: image base; history:%s", w, log.c_str()); EQ(q.get_section_alignment(), sa, "field-changed", "%s: section alignment; history:%s", w, log.c_str());
        for(u32 i = 0; i < 16; ++i) { EQ(q.get_directory_rva(i), dirs[i][0], "entry-changed", "%s: address of directory %u; history:%s", w, i, log.c_str()); EQ(q.get_directory_size(i), dirs[i][1], "entry-changed", "%s: size of directory %u; history:%s", w, i, log.c_str()); }
        for(Done& x : done) { std::string e; mustWork("directory-lost", "reading " + x.k->text() + " after " + what + "; history:" + log, [&] { e = x.k->lib(q); }); CHECK(e.empty(), "directory-lost", "%s after %s: %s; history:%s", x.k->text().c_str(), w, e.c_str(), log.c_str()); count("directories-reread"); }
    }
    void kindStored(const Parsed& q, const Mem& m, const std::string& what) {
        for(Done& x : done) { std::string e; try { e = x.k->decode(m, q.im.dir[x.k->dir][0], q.im.dir[x.k->dir][1]); } catch(const Bad& b) { e = b.why; } CHECK(e.empty(), "stored-wrong", "%s in the file %s, read independently: %s; history:%s", x.k->text().c_str(), what.c_str(), e.c_str(), log.c_str()); count("directories-decoded"); }
    }
    bool used(u64 lo, u64 hi) const { std::vector<Rg> v(1, Rg{lo, hi}); for(const Done& x : done) if(meets(x.use, v)) return true; return false; }
};
const char* ownName(int dir) { switch(dir) { case D_IMPORT: return "imports"; case D_EXPORT: return "exports"; case D_RESOURCE: return "resources"; case D_TLS: return "tls"; case D_CONFIG: return "load configuration"; case D_BOUND: return "bound imports"; } return ""; }
}
static void opDirectory(Rng& r, Hist& h, bool safe) {
    pe_base& p = h.p(); std::unique_ptr<Kind> k;
    for(int i = 0;; ++i) { k = makeKind(static_cast<int>(r.below(KIND_COUNT))); if(!safe || (k->dir != D_TLS && k->dir != D_CONFIG && k->dir != D_IMPORT && k->dir != D_EXPORT)) break; if(i > 30) return; }
    int size = r.chance(70) ? 0 : r.chance(90) ? 1 : 2; Spot s; size_t before = p.get_image_sections().size();
    s = prepareRebuild(r, p, *k, size, false);
    if(p.get_image_sections().size() != before) { const section& n = p.get_image_sections().back(); h.secs.push_back(MSec{n.get_name(), n.get_virtual_address(), n.get_characteristics(), mapped(n, h.sa)}); }
    if(safe && !s.fresh) { s.sec = p.get_image_sections().size() - 1; s.last = true; s.off = static_cast<u32>(std::max<u64>(p.get_image_sections().back().get_raw_data().size(), p.get_image_sections().back().get_virtual_size()) + r.below(9)); }
    else if(s.last && k->dir != D_EXPORT && r.chance(50)) { u64 e = p.get_image_sections()[s.sec].get_raw_data().size(); if(e < 60000) s.off = static_cast<u32>(e + r.below(9)); }
    section& sec = p.get_image_sections()[s.sec]; bool strip = r.chance(30); u64 end = up(s.off, k->align()) + k->need(); u64 va = sec.get_virtual_address();
    std::string what = strf("%s at %x of section %zu", k->text().c_str(), s.off, s.sec);
    k->prep(p); drop(h.done, -1, uses(*k));
    Snap a = snap(p); image_directory d; bool refused = false; int id = 0; std::string why;
    try { d = k->rebuild(p, sec, s.off, true, strip); } catch(const pe_exception& e) { refused = true; id = e.get_id(); why = e.what(); }
    if(refused) { CHECK(late(p, a, *k, id), "directory-refused", "%s was refused: %s; history:%s", what.c_str(), why.c_str(), h.log.c_str()); count("companion-range-refused"); h.sync(); h.log += " [" + what + " refused]"; if(k->dir == D_TLS) { drop(h.done, -1, companions(*k)); std::vector<Rg> own(1, Rg{va + s.off, va + end + 3}); drop(h.done, D_TLS, own); } else { std::vector<Rg> own(1, Rg{va + s.off, va + end + 3}); drop(h.done, k->dir, own); drop(h.done, -1, companions(*k)); } return; }
    Snap b = snap(p); frame(p, a, b, *k, s.sec, s.off, true, d, what);
    std::vector<Rg> wrote = companions(*k), use = uses(*k); Rg own = {va + s.off, va + end + (k->dir == D_RESOURCE ? 3 : 0)}; wrote.push_back(own); use.push_back(own);
    drop(h.done, k->dir, wrote); drop(h.done, -1, use); h.forget(ownName(k->dir));
    if(const KImports* t = dynamic_cast<const KImports*>(k.get())) if(t->st.zero_directory_entry_iat()) { h.dirs[12][0] = h.dirs[12][1] = 0; }
    u32 was[16][2]; memcpy(was, h.dirs, sizeof was); was[k->dir][0] = d.get_rva(); was[k->dir][1] = d.get_size();
    std::vector<MSec> names = h.secs; h.sync(); memcpy(h.dirs, was, sizeof was);
    for(size_t i = 0; i < names.size() && i < h.secs.size(); ++i) { h.secs[i].name = names[i].name; h.secs[i].va = names[i].va; h.secs[i].chars = names[i].chars; }
    k->rebuilt = true; Done x; x.k = std::move(k); x.use = use; h.done.push_back(std::move(x)); h.log += " [" + what + "]"; count("directories-written");
}
// the zero-filled view of some sections is in use when the next operation comes
static void look(Rng& r, pe_base& p) { const pe_base& q = p; const section_list& l = q.get_image_sections(); if(l.empty() || !r.chance(40)) return; for(u64 n = 1 + r.below(2); n; --n) { const section& s = r.pick(l); u64 z = s.get_aligned_virtual_size(q.get_section_alignment()); if(z > 4000000) continue; const Bytes& v = s.get_virtual_data(q.get_section_alignment()); CHECK(v.size() >= z, "view-wrong", "view of a section of %llx bytes has %zu", (unsigned long long)z, v.size()); count("views-held"); } }
static bool opSave(Rng& r, Hist& h) {
    pe_base& p = h.p(); look(r, p); bool strip = r.chance(25); Bytes f; u32 entry11 = h.dirs[11][0];
    if(headersFull(p)) { try { f = writePe(p, strip); } catch(const pe_exception&) { throw CaseSkip(); } }
    else mustWork("write-failed", "saving; history:" + h.log, [&] { f = writePe(p, strip); });
    if(strip) h.fv[4] = 16; // overlaps e_lfanew
    h.log += strip ? " [save, DOS header stripped]" : " [save]";
    (void)entry11; Parsed q = parse(f, true); CHECK(q.ok(), "written-file-invalid", "saved file: %s; history:%s", q.err.c_str(), h.log.c_str());
    h.kindStored(q, Mem(mapImage(f, q)), "saved");
    bool dbg = r.chance(70); std::unique_ptr<pe_base> n; mustWork("reopen-refused", "opening the saved file; history:" + h.log, [&] { n.reset(new pe_base(openPe(f, false, dbg))); });
    h.verify("saving"); h.pp = std::move(n); h.verify("saving and reopening"); ++h.writes; count("saves"); return true;
}
static void opRebase(Rng& r, Hist& h) {
    pe_base& p = h.p(); bool w64 = p.get_pe_type() == pe_type_64; int w = w64 ? 8 : 4; u64 lim = w64 ? ~0ull : 0xFFFFFFFFull, size = static_cast<u64>(p.get_size_of_image()) + 0x2000000; if(size > lim) return;
    u64 nb = w64 ? (r.next() >> r.below(40)) & ~0xFFFFull : r.u32v() & 0xFFFF0000; if(!nb) nb = 0x10000; if(nb > lim - size) nb = (lim - size) & ~0xFFFFull;
    std::vector<u64> at; // places that hold addresses
    for(Done& x : h.done) if(KTls* t = dynamic_cast<KTls*>(x.k.get())) {
        u64 d = h.dirs[D_TLS][0]; u32 v[4] = {t->start, t->end, t->index, t->cbs}; for(int i = 0; i < 4; ++i) if(v[i]) at.push_back(d + i * w);
        if(t->cbs) for(size_t i = 0; i < t->cb.size(); ++i) at.push_back(t->cbs + i * w); }
    for(size_t i = 0; i < h.done.size();) if(h.done[i].k->dir == D_CONFIG) h.done.erase(h.done.begin() + static_cast<long>(i)); else ++i;
    std::sort(at.begin(), at.end()); for(size_t i = 1; i < at.size(); ++i) if(at[i] < at[i - 1] + w) return;
    relocation_table_list l; bool merged = r.chance(70);
    for(u64 a : at) { u32 page = static_cast<u32>(a) & ~0xFFFu; if(l.empty() || l.back().get_rva() != page || !merged) l.push_back(relocation_table(page)); l.back().add_relocation(relocation_entry(static_cast<u16>(a - page), w64 ? 10 : 3)); if(r.chance(20)) l.back().add_relocation(relocation_entry(0, 0)); }
    std::string what = strf("moving the image from %llx to %llx with %zu relocations", (unsigned long long)h.base, (unsigned long long)nb, at.size());
    for(u64 a : at) for(size_t i = 0; i < h.secs.size(); ++i) if(a >= h.secs[i].va && a < static_cast<u64>(h.secs[i].va) + p.get_image_sections()[i].get_aligned_virtual_size(h.sa)) { size_t o = static_cast<size_t>(a - h.secs[i].va); if(o + w > p.get_image_sections()[i].get_raw_data().size()) return; }
    look(r, p); mustWork("rebase-refused", what + "; history:" + h.log, [&] { rebase_image(p, l, nb); });
    for(u64 a : at) for(MSec& s : h.secs) { size_t o = static_cast<size_t>(a - s.va); if(a < s.va) continue; size_t i = static_cast<size_t>(&s - &h.secs[0]); if(i + 1 < h.secs.size() && a >= h.secs[i + 1].va) continue; Bytes m = s.mem; if(m.size() < o + w) m.resize(o + w, '\0'); u64 v = rdn(m, o, w) + nb - h.base; wrn(m, o, v, w); size_t n = m.size(); while(n && !m[n - 1]) --n; s.mem = m.substr(0, n); }
    h.base = nb; for(Done& x : h.done) x.k->base = nb;
    h.log += " [" + what + "]"; count("rebased"); count("addresses-relocated", at.size());
}
void run_case(Rng& r, u64 idx) {
    Hist h; h.writes = h.ops = 0; h.stubKept = true; bool safe = idx % 8 == 7; u64 id = r.next();
    if(safe) { const auto& f = realFiles(); if(f.empty()) throw CaseSkip(); const Bytes& b = r.pick(f).second; if(b.size() > 300000) throw CaseSkip(); note_input(b); try { h.pp.reset(new pe_base(openPe(b))); } catch(const pe_exception&) { throw CaseSkip(); } }
    else h.pp.reset(new pe_base(subject(r, r.chance(70))));
    if(h.p().get_number_of_rvas_and_sizes() != 16) throw CaseSkip();
    for(const section& s : h.p().get_image_sections()) if(s.get_size_of_raw_data() > s.get_aligned_virtual_size(h.p().get_section_alignment())) throw CaseSkip(); // data that is not mapped
    { // a position in the first pages, kept apart from the checks of headers
      u32 first = h.p().get_image_sections().empty() ? 0 : h.p().get_image_sections()[0].get_virtual_address(); if(h.p().get_directory_rva(11) && h.p().get_directory_rva(11) < first) h.p().remove_directory(11); h.p().remove_directory(D_SECURITY); }
    h.sync();
    if(safe) { static const char* const keep[] = {"imports", "exports", "resources", "exceptions", ".NET"}; for(auto& o : observe(h.p())) for(const char* n : keep) if(o.first == n) h.own.push_back(o); }
    u64 n = 4 + r.below(r.chance(20) ? 21 : 9);
    for(u64 i = 0; i < n; ++i) {
        pe_base& p = h.p(); u64 op = r.below(100); std::string what; section_list& l = p.get_image_sections();
        if(op < 34) { opDirectory(r, h, safe); what = "writing a directory"; }
        else if(op < 52) { opSave(r, h); what = "saving"; }
        else if(op < 58 && l.size() < 60) {
            section s; s.set_name(".s" + r.ident(0, 5)); s.readable(r.chance(50)).writeable(r.chance(50)).executable(r.chance(30)); s.set_raw_data(r.chance(50) ? r.bytes(1 + r.below(3000)) : r.bytes(1 + r.below(50)) + Bytes(r.below(2000), '\0')); if(r.chance(40)) s.set_virtual_size(static_cast<u32>(r.below(9000)));
            Bytes data = s.get_raw_data(); u64 end = 0; if(!l.empty()) end = static_cast<u64>(l.back().get_virtual_address()) + l.back().get_aligned_virtual_size(h.sa);
            look(r, p); section* a = 0; mustWork("add-refused", "adding a section; history:" + h.log, [&] { a = &p.add_section(s); });
            if(!h.secs.empty()) EQ(static_cast<u64>(a->get_virtual_address()), end, "add-wrong", "address of an added section; history:%s", h.log.c_str());
            u64 span = a->get_aligned_virtual_size(h.sa); size_t m = static_cast<size_t>(std::min<u64>(data.size(), span)); CHECK(m == data.size() || s.get_virtual_size(), "add-wrong", "added section of %zu bytes spans %llx", data.size(), (unsigned long long)span); while(m && !data[m - 1]) --m;
            h.secs.push_back(MSec{s.get_name(), a->get_virtual_address(), s.get_characteristics(), data.substr(0, m)}); what = strf("adding a section of %zu bytes", data.size()); h.log += " [" + what + "]"; if(m < data.size() && span < data.size()) throw CaseSkip();
        } else if(op < 64) { // last section grows
            if(l.empty()) continue; section& s = l.back();
            if(r.chance(40)) { // room that reads as zeros
                u64 sva = s.get_virtual_address(), raw = s.get_raw_data().size(), span = s.get_aligned_virtual_size(h.sa); if(raw > span || span > 400000) continue; bool virt = r.chance(50); look(r, p);
                if(r.chance(40)) { u64 v = std::max<u64>(std::max<u64>(raw, s.get_virtual_size()), 1) + r.below(9000); mustWork("expand-refused", "a larger virtual size of the last section; history:" + h.log, [&] { p.set_section_virtual_size(s, static_cast<u32>(v)); }); CHECK(s.get_virtual_size() == v, "expand-wrong", "virtual size %x instead of %llx", s.get_virtual_size(), (unsigned long long)v); what = strf("virtual size %llx of the last section", (unsigned long long)v); }
                else {
                    if(!span) continue; u64 from = r.below(span), len = 1 + r.below(5000); bool did = false; mustWork("expand-refused", "expanding the last section; history:" + h.log, [&] { did = p.expand_section(s, static_cast<u32>(sva + from), static_cast<u32>(len), virt ? pe_base::expand_section_virtual : pe_base::expand_section_raw); });
                    u64 have = virt ? std::max<u64>(span, raw) : raw; CHECK(did == (from + len > have), "expand-wrong", "expanding to %llx+%llx with %llx present reported %d; history:%s", (unsigned long long)from, (unsigned long long)len, (unsigned long long)have, did, h.log.c_str());
                    u64 now = virt ? s.get_aligned_virtual_size(h.sa) : s.get_raw_data().size(); CHECK(now >= from + len || !did, "expand-wrong", "expanded to %llx, wanted %llx+%llx; history:%s", (unsigned long long)now, (unsigned long long)from, (unsigned long long)len, h.log.c_str()); CHECK(s.get_aligned_virtual_size(h.sa) >= span, "expand-wrong", "expanding shrank the section; history:%s", h.log.c_str());
                    what = strf("expanding the last section (%s) to %llx+%llx", virt ? "virtual" : "raw", (unsigned long long)from, (unsigned long long)len);
                }
                const section& z = p.get_image_sections().back(); EQ(p.get_size_of_image(), z.get_virtual_address() + z.get_aligned_virtual_size(h.sa), "image-size-wrong", "%s; history:%s", what.c_str(), h.log.c_str());
                h.log += " [" + what + "]"; count("expanded"); ++h.ops; h.verify(what); continue; }
            Bytes& d = s.get_raw_data(); if(d.size() > 100000 || s.empty()) continue; u64 vs = s.get_virtual_size(); size_t at = static_cast<size_t>(std::max<u64>(d.size(), vs)); if(at > 200000) continue;
            Bytes add = r.nzbytes(1 + r.below(2000)); u64 sva = s.get_virtual_address(); if(h.used(sva + at, sva + at + add.size())) continue; // zeros at the end belong to a directory
            d.resize(at, '\0'); d += add; p.recalculate_section_sizes(s, false); h.secs.back().mem.resize(at, '\0'); h.secs.back().mem += add; what = strf("growing the last section by %zu", add.size()); h.log += " [" + what + "]";
        } else if(op < 69) { if(l.empty()) continue; size_t k = r.below(l.size()); std::string nm = "." + r.ident(0, 7); l[k].set_name(nm); h.secs[k].name = nm; if(r.chance(50)) { bool b = r.chance(50); l[k].executable(b); h.secs[k].chars = b ? h.secs[k].chars | 0x20000000u : h.secs[k].chars & ~0x20000000u; } what = strf("renaming section %zu", k); h.log += " [" + what + "]"; }
        else if(op < 77) { size_t k = r.below(fields().size()); const Field& f = fields()[k]; u64 v = (r.chance(30) ? r.edge64() : r.next()) & f.mask; if(p.get_pe_type() == pe_type_32) v &= 0xFFFFFFFF; f.set(p, v); h.fv[k] = v; what = strf("setting %s to %llx", f.name, (unsigned long long)v); h.log += " [" + what + "]"; }
        else if(op < 84) { // bytes nobody uses
            if(l.empty() || safe) continue; size_t k = r.below(l.size()); u64 lim = std::min<u64>(l[k].get_raw_data().size(), l[k].get_aligned_virtual_size(h.sa)); if(!lim) continue; u64 o = r.below(lim), m = std::min<u64>(1 + r.below(16), lim - o), va = l[k].get_virtual_address(); if(h.used(va + o, va + o + m)) continue;
            Bytes b = r.bytes(m); char* w = 0; mustWork("patch-refused", "address of mapped bytes; history:" + h.log, [&] { w = r.chance(50) ? p.section_data_from_rva(static_cast<u32>(va + o)) : p.section_data_from_rva(l[k], static_cast<u32>(va + o)); }); memcpy(w, b.data(), m);
            Bytes& e = h.secs[k].mem; if(e.size() < o + m) e.resize(o + m, '\0'); e.replace(o, m, b); size_t z = e.size(); while(z && !e[z - 1]) --z; e.resize(z); what = strf("patching %llx bytes at %llx", (unsigned long long)m, (unsigned long long)(va + o)); h.log += " [" + what + "]"; count("patches");
        } else if(op < 88) { std::vector<u32> c; for(u32 a = 512; a <= h.sa && a <= 0x4000; a *= 2) c.push_back(a); if(c.empty()) continue; u32 a = r.pick(c); look(r, p); p.set_file_alignment(a); what = strf("file alignment %x", a); if(r.chance(60)) { p.realign_all_sections(); what += " and realigning"; } h.log += " [" + what + "]"; count("realigned"); }
        else if(op < 91) { std::vector<u32> c; for(u32 d = 0; d < 16; ++d) if(h.dirs[d][0] || h.dirs[d][1]) c.push_back(d); if(c.empty()) continue; u32 d = r.pick(c); p.remove_directory(d); CHECK(!p.directory_exists(d), "remove-wrong", "directory %u still exists after removing it", d); h.dirs[d][0] = h.dirs[d][1] = 0; std::vector<Rg> none; drop(h.done, static_cast<int>(d), none); if(d == D_EXPORT) h.fv[6] &= ~0x2000ull; h.forget(ownName(static_cast<int>(d))); if(d == D_EXCEPTION) h.forget("exceptions"); if(d == D_COM) h.forget(".NET"); if(d == D_IAT) h.forget("imports"); what = strf("removing directory %u", d); h.log += " [" + what + "]"; }
        else if(op < 96) { if(safe) continue; opRebase(r, h); what = "rebasing"; }
        else { look(r, p); std::unique_ptr<pe_base> q; if(r.chance(50)) q.reset(new pe_base(p)); else { q.reset(new pe_base(pe_properties_32(), 0x1000, false)); *q = p; } h.pp = std::move(q); what = "copying the image"; h.log += " [copy]"; count("copies"); }
        ++h.ops; h.verify(what); count("operations");
    }
    if(r.chance(25)) { // entries nobody uses are cut from the table
        u32 keep = 16, min = static_cast<u32>(r.below(17)); while(keep > min && !h.dirs[keep - 1][0]) --keep;
        bool iat = r.chance(50); u32 got = 0; mustWork("strip-refused", "stripping directories", [&] { got = h.p().strip_data_directories(min, iat); });
        u32 n2 = h.p().get_number_of_rvas_and_sizes(); CHECK(got == n2, "strip-wrong", "strip_data_directories says %u, header %u", got, n2);
        for(u32 i = 0; i < n2; ++i) if(!(iat && i == 12)) { CHECK(h.p().get_directory_rva(i) == h.dirs[i][0] && h.p().get_directory_size(i) == h.dirs[i][1], "strip-wrong", "stripping changed directory %u; history:%s", i, h.log.c_str()); }
        for(u32 i = n2; i < 16; ++i) CHECK(!h.dirs[i][0] || (iat && i == 12), "strip-wrong", "stripping dropped directory %u; history:%s", i, h.log.c_str());
        if(!(iat && h.dirs[12][0])) CHECK(n2 == keep, "strip-wrong", "%u entries left, expected %u; history:%s", n2, keep, h.log.c_str());
        count("tables-stripped"); h.log += strf(" [%u directory entries left]", n2); h.pp.reset(new pe_base(h.p()));
        pe_base& p = h.p(); Bytes f; if(headersFull(p)) { try { f = writePe(p); } catch(const pe_exception&) { throw CaseSkip(); } } else mustWork("write-failed", "saving; history:" + h.log, [&] { f = writePe(p); });
        Parsed q = parse(f, true); CHECK(q.ok(), "written-file-invalid", "saved file: %s; history:%s", q.err.c_str(), h.log.c_str()); h.kindStored(q, Mem(mapImage(f, q)), "saved with a short table");
        mustWork("reopen-refused", "opening the saved file; history:" + h.log, [&] { h.pp.reset(new pe_base(openPe(f))); }); for(Done& x : h.done) { std::string e; mustWork("directory-lost", x.k->text() + "; history:" + h.log, [&] { e = x.k->lib(h.p()); }); CHECK(e.empty(), "directory-lost", "%s with a short table: %s; history:%s", x.k->text().c_str(), e.c_str(), h.log.c_str()); }
        if(iat) h.forget("imports");
    } else opSave(r, h);
    for(auto& o : h.own) for(auto& g : observe(h.p())) if(g.first == o.first) { CHECK(g.second == o.second, "own-directory-changed", "the image's own %s read differently after:%s", o.first.c_str(), h.log.c_str()); count("shipped-directories-reread"); }
    if(h.ops >= 2) nontrivial(id ^ fnv(h.log)); sample(h.log.substr(0, 600));
}
