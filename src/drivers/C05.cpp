// Layout rules of written files after any sequence of edits
#include "../sweep.h"
#include <algorithm>
extern const char* const PROPERTY = "C05";
extern const char* const RULE = "each case opens or creates an image (generated with directories, or shipped), applies a random sequence of 0-8 section, alignment, header, directory and rebuild operations, and writes it with random options, several times with edits between; every written file is checked by an independent parser against the layout rules, refusals must be the library's exception, must be for headers that do not fit, and must leave the image as it was; non-trivial: at least one edit was accepted and a file was written; distinct by the bytes written";
u64 num_cases(bool t) { return t ? 1000000 : 100000; }
void setup() { realFiles(); }
struct St { Bytes nt; std::vector<Bytes> hdr; std::vector<size_t> data; bool operator==(const St& o) const { return nt == o.nt && hdr == o.hdr && data == o.data; } };
static St state(const pe_base& p) { St s; s.nt = Bytes(p.get_nt_headers_ptr(), p.get_sizeof_nt_header()); for(const section& x : p.get_image_sections()) { s.hdr.push_back(Bytes(reinterpret_cast<const char*>(&x.get_raw_header()), 40)); s.data.push_back(x.get_raw_data().size()); } return s; }
static void rules(const Bytes& f, bool autoHdr, bool bound, const pe_base& p, const std::string& how) {
    Parsed q = parse(f, false); CHECK(q.ok(), "unreadable", "%s: %s", how.c_str(), q.err.c_str());
    Bytes g = f; bool fits = true;
    u64 end = up(q.sectab + 40 * q.im.secs.size(), q.im.h[FA]);
    if(!autoHdr) { // the header size field is the caller's: judge everything else
        if(!q.im.secs.empty() && end > q.im.secs[0].va) fits = false; else wrn(g, q.lfanew + 84, end, 4); }
    if(fits) { Parsed z = parse(g, true); CHECK(z.ok(), "layout", "%s: %s", how.c_str(), z.err.c_str()); }
    EQ(q.im.h[NSEC], p.get_image_sections().size(), "section-count", "%s: sections in the file", how.c_str());
    EQ(q.im.h[OPTSIZE], q.im.optFixed() + 8 * q.im.h[NRVA], "optional-header-size", "%s: SizeOfOptionalHeader", how.c_str());
    u64 prev = end;
    for(size_t i = 0; i < q.im.secs.size(); ++i) { const RSec& s = q.im.secs[i]; if(!s.rawsize) continue;
        CHECK(s.rawptr % q.im.h[FA] == 0, "layout", "%s: section %zu at unaligned offset %x", how.c_str(), i, s.rawptr); CHECK(s.rawptr >= prev, "layout", "%s: section %zu at offset %x inside what ends at %llx", how.c_str(), i, s.rawptr, static_cast<unsigned long long>(prev)); prev = static_cast<u64>(s.rawptr) + s.rawsize; }
    bool any = false; for(const RSec& s : q.im.secs) any = any || s.rawsize; if(any) EQ(f.size(), prev, "file-size", "%s: file size", how.c_str());
    if(autoHdr && bound && q.im.ndirs() > D_BOUND && q.im.dir[D_BOUND][0] && q.im.dir[D_BOUND][0] < q.im.h[SIZEHDR]) { count("bound-in-headers"); u64 a = q.im.dir[D_BOUND][0]; CHECK(a >= q.sectab + 40 * q.im.secs.size() && a + q.im.dir[D_BOUND][1] <= q.im.h[SIZEHDR], "layout", "%s: bound imports at %llx+%x, section table ends at %llx, headers at %llx", how.c_str(), static_cast<unsigned long long>(a), q.im.dir[D_BOUND][1], static_cast<unsigned long long>(q.sectab + 40 * q.im.secs.size()), static_cast<unsigned long long>(q.im.h[SIZEHDR])); }
    count("files-checked");
}
void run_case(Rng& r, u64 idx) {
    std::string log; u64 accepted = 0;
    pe_base p = [&]() -> pe_base { if(r.chance(25)) { GenOpt o; Img im = genImg(r, o); Bytes f = im.file(); note_input(f); return openPe(f); } if(r.chance(60)) return subject(r, r.chance(50)); Rich x = richImage(r); Bytes f = x.im.file(); note_input(f); return openPe(f); }();
    u64 rounds = 1 + r.below(3); u64 h = 1;
    for(u64 k = 0; k < rounds; ++k) {
        for(u64 n = r.below(6); n; --n) { std::string t = randomEdit(r, p); log += t + "; "; if(t.find("refused") == Bytes::npos && t.find("not possible") == Bytes::npos && !t.empty()) ++accepted; }
        if(!p.get_number_of_sections()) { count("no-sections"); }
        bool strip = r.chance(30), hdrs = r.chance(85), bound = r.chance(70); std::string how = log + strf("write(strip %d, headers %d, bound %d)", strip, hdrs, bound);
        if(r.chance(p.has_bound_import() ? 30 : 4) && !p.get_image_sections().empty()) { Bytes st = r.bytes(p.get_image_sections()[0].get_virtual_address() > 0x10000 ? 0 : r.below(p.get_image_sections()[0].get_virtual_address())); p.set_stub_overlay(st); log += strf("set_stub_overlay(%zu bytes); ", st.size()); }
        if(strip) p.strip_stub_overlay();
        bool inHdr = p.has_bound_import() && p.get_directory_rva(D_BOUND) < p.get_full_headers_data().size();
        St a = state(p); Bytes f;
        try { f = writePe(p, strip, hdrs, bound); }
        catch(const pe_exception& e) {
            count("writes-refused"); St b = state(p);
            { u32 o = 24 + 20; if(strip) wrn(b.nt, o, rdn(a.nt, o, 4), 4); }   // stripping stores the header position in the code base field
            CHECK(a == b, "refusal-changed-image", "%s refused (%s) but the image changed", how.c_str(), e.what());
            u64 need = (strip ? 16 : 64) + up(p.get_stub_overlay().size(), 4) + 24 + (p.get_pe_type() == pe_type_64 ? 112 : 96) + 8 * p.get_number_of_rvas_and_sizes() + 40 * p.get_image_sections().size(); bool bi = p.has_bound_import(); if(bi) need += p.get_directory_size(D_BOUND);
            bool cramped = hdrs && !p.get_image_sections().empty() && up(need, p.get_file_alignment()) > p.get_image_sections()[0].get_virtual_address(), badBound = bound && bi;
            CHECK(cramped || badBound, "refused", "%s: refused although %llu bytes of headers fit: %s", how.c_str(), static_cast<unsigned long long>(need), e.what());
            continue;
        }
        log += "write; ";
        if(p.get_image_sections().empty()) continue;
        rules(f, hdrs, bound && inHdr, p, how); h = fnv(f, h);
        if(r.chance(30) && f.size() < 200000 && hdrs) { mustWork("reopen", "reopening after " + how, [&] { pe_base z = openPe(f); EQ(z.get_image_sections().size(), p.get_image_sections().size(), "reopen", "sections after reopening"); }); count("reopened"); if(r.chance(50)) { p = openPe(f); log += "reopen; "; } }
    }
    if(accepted && h != 1) { nontrivial(h); if(idx < 40) sample(log.substr(0, 600)); }
}
