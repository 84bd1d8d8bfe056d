// Writing a directory changes only the space that directory occupies
#include "../frame.h"
extern const char* const PROPERTY = "C29";
extern const char* const RULE = "each case rebuilds one to four directories of any kind and any options into places of a generated, created or shipped image - new, last and inner sections, any offset, one after the other in the same section or anywhere - and compares a full snapshot of headers and all section contents before and after each call: only the reported space, the requested companion ranges and the documented header fields may differ, directories written before must still read the same, and requests for foreign sections or without room must be refused leaving everything equal; non-trivial: a directory was written into an image with other contents, or a request was refused; distinct by models, places and images";
u64 num_cases(bool t) { return t ? 1600000 : 60000; }
void setup() { realFiles(); }
void run_case(Rng& r, u64) {
    pe_base p = subject(r, r.chance(70)); if(p.get_number_of_rvas_and_sizes() < 16) throw CaseSkip();
    u64 h = r.next(); bool any = false; std::vector<Done> done; u64 n = 1 + r.below(4); bool chain = r.chance(40);
    for(u64 i = 0; i < n; ++i) {
        std::unique_ptr<Kind> k = makeKind(static_cast<int>(r.below(KIND_COUNT))); int size = r.chance(60) ? 0 : r.chance(80) ? 1 : 2; bool save = r.chance(75), strip = r.chance(40);
        u64 mode = r.below(10);
        if(mode == 0) { // foreign section
            Spot s = prepareRebuild(r, p, *k, size, false); k->prep(p); drop(done, -1, uses(*k)); pe_base q(p); section loose(p.get_image_sections()[s.sec]); section& f = r.chance(40) ? q.get_image_sections()[s.sec] : loose; Bytes fd = f.get_raw_data(); Snap a = snap(p), aq = snap(q);
            std::string what = k->text() + " into a section of another image";
            mustRefuse("foreign-accepted", what, [&] { k->rebuild(p, f, s.off, save, strip); });
            unchanged(a, snap(p), "refused-but-changed", what); unchanged(aq, snap(q), "refused-but-changed", what); CHECK(f.get_raw_data() == fd, "refused-but-changed", "%s: the section's contents changed", what.c_str()); count("foreign-refused"); h = h * 31 + fnv(what), any = true; continue;
        }
        bool shortOk = mode < 3; Spot s;
        try { s = prepareRebuild(r, p, *k, size, shortOk); } catch(const CaseSkip&) { continue; }
        if(chain && !shortOk && s.last && k->dir != D_EXPORT) { // right behind what is there, so that directories share the section
            u64 e = p.get_image_sections()[s.sec].get_raw_data().size(); if(e < 60000 && r.chance(70)) { Rng keep = r; (void)keep; s.off = static_cast<u32>(e + r.below(9)); } }
        section& sec = p.get_image_sections()[s.sec]; u32 fa = p.get_file_alignment(), sa = p.get_section_alignment(); k->prep(p); drop(done, -1, uses(*k));
        u64 room = up(sec.get_size_of_raw_data(), fa), end = up(s.off, k->align()) + k->need(); bool inner = s.sec + 1 < p.get_image_sections().size();
        u64 slack = k->dir == D_RESOURCE ? 4 : 0, least = k->dir == D_RELOC ? 16 : 0; bool noRoom = inner && (sec.empty() || end > room + slack);
        bool fits = !inner ? end < 0x7FF00000 && !shortOk : !sec.empty() && end + least <= room && room <= sec.get_aligned_virtual_size(sa);
        std::string what = strf("%s at %x of %s section %zu of %zu (save %d, strip %d)", k->text().c_str(), s.off, s.fresh ? "new" : inner ? "inner" : "last", s.sec, p.get_image_sections().size(), save, strip);
        if(shortOk && !inner && s.off > 200000) continue;
        Snap a = snap(p); image_directory d; bool refused = false; int id = 0; std::string why;
        try { d = k->rebuild(p, sec, s.off, save, strip); } catch(const pe_exception& e) { refused = true; id = e.get_id(); why = e.what(); } catch(const std::exception& e) { fail("wrong-exception", "%s: %s", what.c_str(), e.what()); }
        Snap b = snap(p);
        if(refused) {
            if(!noRoom && late(p, a, *k, id)) { count("companion-range-refused"); break; }
            CHECK(!fits, "fitting-refused", "%s refused: %s (needs up to %llx of %llx)", what.c_str(), why.c_str(), (unsigned long long)end, (unsigned long long)room);
            unchanged(a, b, "refused-but-changed", what + " refused: " + why); count("refused-unchanged"); if(noRoom) count("no-room-refused"); h = h * 31 + fnv(what), any = true; continue;
        }
        CHECK(!noRoom, "no-room-accepted", "%s accepted: needs %llx, section has %llx", what.c_str(), (unsigned long long)end, (unsigned long long)room);
        frame(p, a, b, *k, s.sec, s.off, save, d, what);
        u64 va = a.h[s.sec].VirtualAddress; std::vector<Rg> wrote = companions(*k), use = uses(*k); Rg own = {va + s.off, va + end + (k->dir == D_RESOURCE ? 3 : 0)}; wrote.push_back(own); use.push_back(own);
        drop(done, k->dir, wrote); drop(done, -1, use);
        for(Done& x : done) { std::string e; mustWork("neighbour-broken", "reading " + x.k->text() + " after " + what, [&] { e = x.k->lib(p); }); CHECK(e.empty(), "neighbour-broken", "%s no longer reads the same after %s: %s", x.k->text().c_str(), what.c_str(), e.c_str()); count("neighbours-reread"); }
        if(save) { k->rebuilt = true; Done x; x.k = std::move(k); x.use = use; done.push_back(std::move(x)); }
        count("directories-written"); if(inner) count("inner-sections"); h = h * 31 + fnv(what), any = true; sample(what);
    }
    if(!done.empty() && r.chance(30)) for(Done& x : done) checkStored(p, *x.k, "with other directories");
    if(any) nontrivial(h);
}
