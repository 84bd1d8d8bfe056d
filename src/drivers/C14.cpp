// TLS directories
#include "../gens.h"
extern const char* const PROPERTY = "C14";
extern const char* const RULE = "each case plants an independently encoded TLS directory (template, callbacks, zero fill, in sections or headers; empty template; no callbacks) and requires the library to report it exactly, or rebuilds random information with every combination of callback and data writing and of section expansion into a random place and requires an independent decoder and the library to recover it, or asks for data, callbacks or a directory that do not fit, which must be refused with nothing outside the section's raw data written; non-trivial: every case; distinct by file or request";
u64 num_cases(bool t) { return t ? 1600000 : 60000; }
void setup() {}
static void misfits(Rng& r) {
    pe_base p = subject(r, true); KTls k; Spot s = prepareRebuild(r, p, k, 1, true); section_list& l = p.get_image_sections(); u32 sa = p.get_section_alignment();
    // put something where it can not be stored
    tls_info i = k.info(); u32 w = k.pe64 ? 8 : 4; const section& t = l[r.below(l.size())]; u64 va = t.get_virtual_address(), raw = t.get_raw_data().size(), span = t.get_aligned_virtual_size(sa);
    std::vector<Bytes> before; for(const section& q : l) before.push_back(q.get_raw_data());
    bool wcb = true, wdata = true; std::string what; bool certain = false;
    switch(r.below(4)) {
    case 0: { // callbacks past the raw data
        i.clear_tls_callbacks(); int n = static_cast<int>(1 + r.below(8)); for(int k2 = 0; k2 < n; ++k2) i.add_tls_callback(1 + static_cast<u32>(r.below(0x5000)));
        if(raw < w) throw CaseSkip();
        i.set_callbacks_rva(static_cast<u32>(va + std::min(raw, span) - r.below(std::min<u64>(std::min(raw, span), w * (n + 1)) ))); if(raw >= span && span >= w * n && r.chance(40)) i.set_callbacks_rva(static_cast<u32>(va + span - w * n - r.below(w))); wdata = false; certain = &t != &l[s.sec] && &t != &l.back() && i.get_callbacks_rva() < va + span && (i.get_callbacks_rva() + w * n > va + raw || i.get_callbacks_rva() + w * (n + 1) > va + span); what = "callbacks at the end of a section"; break; }
    case 1: i.set_callbacks_rva(static_cast<u32>(va + span + 0x40000000)); i.add_tls_callback(1); wdata = false; certain = true; what = "callbacks outside the image"; break;
    case 2: i.set_raw_data_start_rva(static_cast<u32>(va + span + 0x40000000)); i.set_raw_data_end_rva(i.get_raw_data_start_rva() + 5); i.set_raw_data("12345"); wcb = false; certain = true; what = "template outside the image"; break;
    default: i.set_raw_data_start_rva(r.edge32()); i.set_raw_data_end_rva(r.chance(50) ? i.get_raw_data_start_rva() - static_cast<u32>(1 + r.below(100)) : r.edge32()); i.set_raw_data(r.bytes(r.below(300))); wcb = r.chance(50); what = "odd template range"; break;
    }
    bool done = true;
    try { rebuild_tls(p, i, l[s.sec], s.off, wcb, wdata, r.chance(50) ? tls_data_expand_raw : tls_data_expand_virtual, r.chance(50), r.chance(50)); }
    catch(const pe_exception&) { done = false; }
    catch(const std::bad_alloc&) { done = false; }
    CHECK(!(done && certain), "misfit-accepted", "%s was accepted", what.c_str());
    count(done ? "odd-accepted" : "refused"); nontrivial(r.next());
    // sections other than the ones addressed keep their bytes
    for(size_t z = 0; z < l.size() && z < before.size(); ++z) { u64 a = l[z].get_virtual_address(), b = a + l[z].get_aligned_virtual_size(sa); if(z == s.sec) continue; bool hit = (i.get_callbacks_rva() >= a && i.get_callbacks_rva() < b) || (i.get_raw_data_start_rva() >= a && i.get_raw_data_start_rva() < b); if(!hit) CHECK(l[z].get_raw_data() == before[z], "other-section-changed", "%s: section %zu changed", what.c_str(), z); }
}
// requests that only just fit or only just do not
static void tight(Rng& r) {
    pe_base p = subject(r, true); KTls k; Spot s = prepareRebuild(r, p, k, 1, false); section_list& l = p.get_image_sections(); u32 sa = p.get_section_alignment(); std::vector<size_t> c;
    for(size_t z = 0; z + 1 < l.size(); ++z) if(z != s.sec && l[z].get_aligned_virtual_size(sa)) c.push_back(z); if(c.empty()) throw CaseSkip();
    section& t = l[r.pick(c)]; tls_info i = k.info(); u32 w = k.pe64 ? 8 : 4; u64 va = t.get_virtual_address(), span = t.get_aligned_virtual_size(sa), raw = std::min<u64>(t.get_raw_data().size(), span); Bytes was = t.get_raw_data(), want; std::string what; bool fits = true, wcb = false, wdata = false; int cbs = -1;
    i.clear_tls_callbacks(); i.set_callbacks_rva(0); i.set_raw_data_start_rva(0); i.set_raw_data_end_rva(0); i.set_raw_data("");
    int mode = static_cast<int>(r.below(5)); u64 n = 1 + r.below(std::min<u64>(span, r.chance(50) ? 40 : 3000)), at = span - n; if(r.chance(40) && raw) { at = raw - r.below(std::min<u64>(raw, 40)); n = span - at; if(!n || n > 70000) throw CaseSkip(); }
    if(mode < 2 || mode == 4) {
        u64 extra = mode == 1 ? 1 + r.below(20) : 0, given = r.chance(70) ? n : r.below(n + 10); Bytes d = r.bytes(given); wdata = true; i.set_raw_data(d); i.set_raw_data_start_rva(static_cast<u32>(va + at)); i.set_raw_data_end_rva(static_cast<u32>(va + at + n + extra)); fits = mode == 0; what = fits ? "a template up to the end of its section" : "a template leaving its section";
        want = d; want.resize(n, '\0'); if(at < raw) { for(u64 z = raw - at; z < n; ++z) want[z] = '\0'; } else want.assign(n, '\0');
        if(mode == 4) { if(r.chance(50)) { i.set_index_rva(0); what = "no index"; i.set_raw_data_end_rva(static_cast<u32>(va + at + n)); } else { i.set_raw_data_end_rva(i.get_raw_data_start_rva() - static_cast<u32>(1 + r.below(std::min<u64>(va + at, 100) - (va + at ? 1 : 0)))); what = "a template ending before it begins"; } wdata = r.chance(50); fits = false; }
    } else { // the final zero may be virtual only
        u64 room = mode == 2 ? raw : span; cbs = static_cast<int>(r.below(std::min<u64>(room / w, 8) + 1)); u64 need = static_cast<u64>(w) * cbs; if(mode == 2) { if(raw + w > span || raw < need || !raw) throw CaseSkip(); at = raw - need; } else { if(span < need || !need) throw CaseSkip(); at = span - need - (need < span ? r.below(std::min<u64>(w, span - need)) : 0); fits = false; }
        for(int z = 0; z < cbs; ++z) i.add_tls_callback(1 + static_cast<u32>(r.below(0x5000))); i.set_callbacks_rva(static_cast<u32>(va + at)); wcb = true; what = fits ? "callbacks up to the end of the raw data" : "callbacks leaving their section"; if(mode == 2 && at >= raw) throw CaseSkip();
    }
    std::vector<Bytes> before; for(const section& q : l) before.push_back(q.get_raw_data()); bool done = true; std::string refusal;
    try { rebuild_tls(p, i, l[s.sec], s.off, wcb, wdata, r.chance(50) ? tls_data_expand_raw : tls_data_expand_virtual, true, false); } catch(const pe_exception& e) { done = false; refusal = e.what(); }
    CHECK(done == fits, fits ? "fitting-refused" : "misfit-accepted", "%s (section of %llx bytes, %llx raw, at %llx): %s", what.c_str(), (unsigned long long)span, (unsigned long long)raw, (unsigned long long)at, refusal.c_str()); nontrivial(r.next());
    for(size_t z = 0; z < l.size(); ++z) if(z != s.sec && &l[z] != &t) CHECK(l[z].get_raw_data() == before[z], "other-section-changed", "%s: section %zu changed", what.c_str(), z);
    if(!fits) { count("tight-refused"); return; }
    CHECK(t.get_raw_data().size() == was.size() && t.get_raw_data().compare(0, std::min<size_t>(at, was.size()), was, 0, std::min<size_t>(at, was.size())) == 0, "other-bytes-changed", "%s: bytes before it changed", what.c_str());
    tls_info g; mustWork("reread-refused", what, [&] { g = get_tls_info(p); }); EQ(g.get_index_rva(), i.get_index_rva(), "index-wrong", "index"); EQ(g.get_raw_data_start_rva(), i.get_raw_data_start_rva(), "range-wrong", "start"); EQ(g.get_raw_data_end_rva(), i.get_raw_data_end_rva(), "range-wrong", "end");
    CHECK(g.get_raw_data() == (wdata ? want : Bytes()), "template-wrong", "%s: %s", what.c_str(), diffAt(g.get_raw_data(), want).c_str()); CHECK(g.get_tls_callbacks() == i.get_tls_callbacks(), "callbacks-wrong", "%s: %zu callbacks instead of %d", what.c_str(), g.get_tls_callbacks().size(), cbs); count("tight-accepted");
}
void run_case(Rng& r, u64 idx) {
    KTls k; int size = r.chance(40) ? 0 : r.chance(80) ? 1 : 2;
    if(idx % 10 == 0) { misfits(r); return; } if(idx % 10 == 5) { tight(r); return; }
    if(idx & 1) readScenario(r, k, size, r.chance(30)); else writeScenario(r, k, size);
}
