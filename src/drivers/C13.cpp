// Rebasing
#include "../gens.h"
#include <algorithm>
extern const char* const PROPERTY = "C13";
extern const char* const RULE = "each case opens a generated image (or shipped one with its own relocations), moves it to random new bases (wrapping, equal, maximal) with random relocation tables (all supported types, overlapping and repeated targets, page boundaries, absolute entries) and compares every section byte and header byte with an independent model, moves back and compares with the original, and requires tables with unsupported types or unreachable targets to be refused with only targets of earlier entries changed; non-trivial: at least one applied entry; distinct by file, tables and base";
u64 num_cases(bool t) { return t ? 2000000 : 80000; }
void setup() {}
struct Model { std::vector<Bytes> s; std::vector<u64> va, span; bool fix(u64 rva, int n, u64 diff) {
    for(size_t i = 0; i < s.size(); ++i) if(rva >= va[i] && rva < va[i] + span[i]) {
        if(rva + n > va[i] + std::min<u64>(s[i].size(), span[i] > 0 ? ~0ull : 0)) return false;
        u64 o = rva - va[i], v = rdn(s[i], o, n); v += diff; memcpy(&s[i][o], &v, n); return true; }
    return false; } };
static void shipped(Rng& r, u64 idx) {
    const auto& f = realFiles()[idx]; Parsed q = parse(f.second, false); if(!q.ok() || q.im.ndirs() < 6 || !q.im.dir[5][0] || (q.im.h[CHARS] & 1)) throw CaseSkip();
    note_input(f.second); pe_base p = openPe(f.second); relocation_table_list l = get_relocations(p); u64 b0 = p.get_image_base_64(), b1 = q.im.pe64 ? r.next() & ~0xFFFFull : r.u32v() & 0xFFFF0000;
    std::vector<Bytes> s0; for(const section& s : p.get_image_sections()) s0.push_back(s.get_raw_data());
    std::vector<Bytes> want = s0; size_t applied = 0;
    for(auto& t : l) for(auto& e : t.get_relocations()) { u64 rva = t.get_rva() + e.get_rva(); int n = e.get_type() == 10 ? 8 : 4; for(size_t i = 0; i < want.size(); ++i) { const section& s = p.get_image_sections()[i]; if(rva >= s.get_virtual_address() && rva + n <= s.get_virtual_address() + want[i].size()) { u64 o = rva - s.get_virtual_address(), v = rdn(want[i], o, n) + (b1 - b0); memcpy(&want[i][o], &v, n); ++applied; break; } } }
    mustWork("rebase-refused", f.first, [&] { rebase_image(p, l, b1); });
    for(size_t i = 0; i < want.size(); ++i) CHECK(p.get_image_sections()[i].get_raw_data() == want[i], "rebase-wrong", "%s section %zu: %s", f.first.c_str(), i, diffAt(p.get_image_sections()[i].get_raw_data(), want[i]).c_str());
    EQ(p.get_image_base_64(), b1, "base-wrong", "%s", f.first.c_str());
    rebase_image(p, l, b0); for(size_t i = 0; i < want.size(); ++i) CHECK(p.get_image_sections()[i].get_raw_data() == s0[i], "restore-wrong", "%s section %zu", f.first.c_str(), i);
    count("shipped-rebased"); count("entries-applied", applied); nontrivial(idx);
}
void run_case(Rng& r, u64 idx) {
    if(idx < realFiles().size()) { shipped(r, idx); return; }
    GenOpt o; o.minSecs = 1; o.maxSecs = 4; o.maxSecData = 6000; Img im = genImg(r, o); Bytes f = im.file(); note_input(f);
    pe_base p = openPe(f); if(r.chance(20)) p.set_image_base_64(im.pe64 ? r.edge64() : r.edge32());
    u64 b0 = p.get_image_base_64(), b1 = im.pe64 ? (r.chance(50) ? r.edge64() : b0 + (r.next() >> r.below(64))) : (r.chance(50) ? r.edge32() : static_cast<u32>(b0 + (r.u32v() >> r.below(32))));
    if(r.chance(50)) b1 &= ~0xFFFFull; if(r.chance(5)) b1 = b0;
    Model m; for(const section& s : p.get_image_sections()) { m.s.push_back(s.get_raw_data()); m.va.push_back(s.get_virtual_address()); m.span.push_back(s.get_aligned_virtual_size(p.get_section_alignment())); }
    std::vector<Bytes> s0 = m.s;
    u64 diff = im.pe64 ? b1 - b0 : static_cast<u64>(static_cast<u32>(b1)) - b0; size_t applied = 0; bool bad_ = false; std::string why;
    relocation_table_list l; int tables = static_cast<int>(r.below(6)); bool hostile = r.chance(15); std::vector<std::pair<u64, int> > touched;
    for(int t = 0; t < tables; ++t) {
        size_t si = r.below(m.s.size()); u64 lim = std::min<u64>(m.s[si].size(), m.span[si]);
        relocation_table tab; u32 page = static_cast<u32>(m.va[si] + (lim ? r.below(lim) : 0)) & (r.chance(70) ? ~0xFFFu : ~0u); tab.set_rva(page);
        int n = static_cast<int>(r.below(r.chance(10) ? 100 : 12)); u32 last = 0;
        for(int k = 0; k < n; ++k) {
            static const int ty[] = {0, 1, 2, 3, 3, 3, 10, 10}; int type = ty[r.below(8)]; int w = type == 1 || type == 2 ? 2 : type == 3 ? 4 : 8;
            u32 off = r.chance(20) ? last + static_cast<u32>(r.below(4)) : r.chance(10) ? 0xFFF - static_cast<u32>(r.below(8)) : static_cast<u32>(r.below(0x1000)); off &= 0xFFF; last = off;
            bool ok = false; u64 rva = static_cast<u64>(page) + off;
            for(size_t i = 0; i < m.s.size() && !ok; ++i) if(rva >= m.va[i] && rva < m.va[i] + m.span[i]) ok = rva + w <= m.va[i] + m.s[i].size() && (rva + w <= m.va[i] + m.span[i]);
            if(type == 0) { tab.add_relocation(relocation_entry(off, 0)); if(r.chance(50)) tab.add_relocation(relocation_entry(0)); continue; }
            if(hostile && r.chance(6)) { static const int odd[] = {4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15}; type = odd[r.below(11)]; tab.add_relocation(relocation_entry(off, static_cast<u16>(type))); if(!bad_) { bad_ = true; why = strf("type %d", type); } continue; }
            if(!ok) { if(!hostile || rva + w > 0xFFFFFFFFull || rva < p.get_full_headers_data().size()) continue; bool raw2 = false; for(size_t i = 0; i < m.s.size(); ++i) if(rva >= m.va[i] && rva < m.va[i] + m.span[i] && rva + w <= m.va[i] + m.s[i].size()) raw2 = true; if(raw2) continue; tab.add_relocation(relocation_entry(off, static_cast<u16>(type))); if(!bad_) { bad_ = true; why = strf("%d bytes at %llx", w, (unsigned long long)rva); } continue; }
            tab.add_relocation(relocation_entry(off, static_cast<u16>(type)));
            if(!bad_) { m.fix(rva, w, type == 1 ? diff >> 16 : diff); touched.push_back({rva, w}); ++applied; }
        }
        l.push_back(tab);
    }
    Bytes nt0(p.get_nt_headers_ptr(), p.get_sizeof_nt_header()), full0 = p.get_full_headers_data();
    std::string what = strf("moving from %llx to %llx (%zu entries)", (unsigned long long)b0, (unsigned long long)b1, applied);
    if(bad_) {
        mustRefuse("malformed-accepted", what + ", " + why, [&] { rebase_image(p, l, b1); });
        for(size_t i = 0; i < m.s.size(); ++i) { const Bytes& g = p.get_image_sections()[i].get_raw_data(); CHECK(g.size() == s0[i].size(), "size-changed", "section %zu", i); for(size_t k = 0; k < g.size(); ++k) if(g[k] != s0[i][k]) { bool in = false; for(auto& t : touched) in |= m.va[i] + k >= t.first && m.va[i] + k < t.first + t.second; CHECK(in, "refused-changed-elsewhere", "%s: %s: byte %zx of section %zu changed", what.c_str(), why.c_str(), k, i); } }
        count("refused"); nontrivial(fnv(what) ^ r.next()); return;
    }
    mustWork("rebase-refused", what, [&] { rebase_image(p, l, b1); });
    EQ(p.get_image_base_64(), im.pe64 ? b1 : b1 & 0xFFFFFFFF, "base-wrong", "%s", what.c_str());
    for(size_t i = 0; i < m.s.size(); ++i) CHECK(p.get_image_sections()[i].get_raw_data() == m.s[i], "rebase-wrong", "%s: section %zu: %s", what.c_str(), i, diffAt(p.get_image_sections()[i].get_raw_data(), m.s[i]).c_str());
    { Bytes nt1(p.get_nt_headers_ptr(), p.get_sizeof_nt_header()); int off = im.pe64 ? HFI[IMGBASE].off64 : HFI[IMGBASE].off32, n = im.pe64 ? 8 : 4; Bytes a = nt0, b = nt1; for(int i = 0; i < n; ++i) a[off + i] = b[off + i] = 0; CHECK(a == b, "header-changed", "%s: %s", what.c_str(), diffAt(b, a).c_str()); CHECK(p.get_full_headers_data() == full0, "header-changed", "%s: header bytes", what.c_str()); }
    count("rebased"); count("entries-applied", applied); if(diff == 0) count("same-base");
    mustWork("restore-refused", what, [&] { rebase_image(p, l, b0); });
    EQ(p.get_image_base_64(), b0, "base-wrong", "back from %s", what.c_str());
    // truncating additions undo each other unless targets overlap partially, or the half-word type meets a difference below 64 KB
    std::sort(touched.begin(), touched.end()); bool exact = true;
    for(size_t i = 1; i < touched.size(); ++i) if(touched[i] != touched[i - 1] && touched[i].first < touched[i - 1].first + 8) for(size_t k = i; k-- && exact;) { if(touched[i] != touched[k] && touched[i].first < touched[k].first + touched[k].second) exact = false; if(touched[k].first + 8 < touched[i].first) break; }
    if(diff & 0xFFFF) for(auto& t : touched) if(t.second == 2) exact = false;
    count(exact ? "restored" : "restore-not-exact");
    if(exact) for(size_t i = 0; i < m.s.size(); ++i) CHECK(p.get_image_sections()[i].get_raw_data() == s0[i], "restore-wrong", "%s and back: section %zu: %s", what.c_str(), i, diffAt(p.get_image_sections()[i].get_raw_data(), s0[i]).c_str());
    if(applied) nontrivial(fnv(what) ^ fnv(f)); sample(what);
}
