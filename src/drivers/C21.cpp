// Version information: reader, writer, view and editor
#include "../vinfo.h"
#include <algorithm>
#include <map>
extern const char* const PROPERTY = "C21";
extern const char* const RULE = "each case builds random version information (fixed fields, string tables with names and values of any length and alphabet, translations) and either encodes it independently the way different resource compilers do (block order, padding, length conventions, foreign blocks, no fixed part) and reads it with the library, or writes it with the library - by language, with replacement and removal - and decodes it independently and with the library, or runs a random history of property and translation edits against a map model; damaged, oversized and unrepresentable information must be refused; non-trivial: every case; distinct by encoded bytes or history";
u64 num_cases(bool t) { return t ? 1500000 : 50000; }
void setup() {}
// ---- independent decoder
struct Blk { u32 len, vl, type; std::u16string key; size_t val, end; };
static u32 g16(const Bytes& b, size_t o) { if(o + 2 > b.size()) bad("version block runs past the end at %zx", o); return static_cast<u8>(b[o]) | static_cast<u8>(b[o + 1]) << 8; }
static u32 g32(const Bytes& b, size_t o) { return g16(b, o) | g16(b, o + 2) << 16; }
static Blk blk(const Bytes& b, size_t at, size_t lim) {
    Blk k; k.len = g16(b, at); k.vl = g16(b, at + 2); k.type = g16(b, at + 4); k.end = at + k.len; if(at % 4) bad("version block at unaligned %zx", at); if(k.len < 8 || k.end > lim) bad("version block of %u at %zx ends after %zx", k.len, at, lim);
    size_t p = at + 6; for(;; p += 2) { if(p + 2 > k.end) bad("unterminated key at %zx", at); u32 c = g16(b, p); if(!c) break; k.key += static_cast<char16_t>(c); } k.val = up(p + 2, 4); return k;
}
static Info decode(const Bytes& b) {
    Info o; o.fixed = false; for(u32& x : o.f) x = 0; Blk root = blk(b, 0, b.size()); if(root.key != u"VS_VERSION_INFO") bad("root key"); size_t p = root.val; if(root.vl) { if(root.vl != 52 || p + 52 > root.end) bad("fixed part of %u", root.vl); o.fixed = true; for(int i = 0; i < NFIX; ++i) o.f[i] = g32(b, p + 4 * i); p += 52; }
    for(p = up(p, 4); p < root.end;) { Blk c = blk(b, p, root.end);
        if(c.key == u"StringFileInfo") { for(size_t q = c.val; q < c.end;) { Blk t = blk(b, q, c.end); if(o.s.count(t.key)) bad("string table twice"); Tab& tab = o.s[t.key];
            for(size_t z = t.val; z < t.end;) { Blk s = blk(b, z, t.end); std::u16string v; if(s.vl) { if(s.val + 2 * s.vl > s.end) bad("value of %u words at %zx leaves its block of %u", s.vl, z, s.len); for(u32 k = 0; k < s.vl; ++k) v += static_cast<char16_t>(g16(b, s.val + 2 * k)); if(v.back()) bad("unterminated value"); v.pop_back(); } if(s.type != 1) bad("string of type %u", s.type); if(tab.count(s.key)) bad("string twice"); tab[s.key] = v; z = up(s.end, 4); } q = up(t.end, 4); } }
        else if(c.key == u"VarFileInfo") { for(size_t q = c.val; q < c.end;) { Blk t = blk(b, q, c.end); if(t.key == u"Translation") { if(t.vl % 4 || t.val + t.vl > t.end) bad("translations of %u bytes", t.vl); for(u32 k = 0; k < t.vl; k += 4) o.t.insert(std::make_pair(static_cast<u16>(g16(b, t.val + k)), static_cast<u16>(g16(b, t.val + k + 2)))); } q = up(t.end, 4); } }
        else bad("foreign block");
        p = up(c.end, 4); }
    return o;
}
static lang_string_values_map toMap(const Strs& s) { lang_string_values_map m; for(auto& t : s) { string_values_map& x = m[wide(t.first)]; for(auto& kv : t.second) x[wide(kv.first)] = wide(kv.second); } return m; }
typedef std::vector<std::pair<u16, u16> > TV;
static TV tv(const Trans& t) { TV v(t.begin(), t.end()); std::sort(v.begin(), v.end()); return v; }
static std::string cmpFixed(const file_version_info& f, const Info& i) {
    static const struct { const char* n; u32 (file_version_info::*g)() const; int k; } F[] = {{"file version high", &file_version_info::get_file_version_ms, 2}, {"file version low", &file_version_info::get_file_version_ls, 3}, {"product version high", &file_version_info::get_product_version_ms, 4}, {"product version low", &file_version_info::get_product_version_ls, 5}, {"flags", &file_version_info::get_file_flags, 7}, {"system", &file_version_info::get_file_os_raw, 8}, {"type", &file_version_info::get_file_type_raw, 9}, {"subtype", &file_version_info::get_file_subtype, 10}, {"date high", &file_version_info::get_file_date_ms, 11}, {"date low", &file_version_info::get_file_date_ls, 12}};
    for(auto& x : F) { u32 w = i.fixed ? i.f[x.k] : 0; if((f.*x.g)() != w) return strf("%s is %x instead of %x", x.n, (f.*x.g)(), w); }
    auto ver = [](u32 a, u32 b) { return strf("%u.%u.%u.%u", a >> 16, a & 0xFFFF, b >> 16, b & 0xFFFF); };
    if(i.fixed && (f.get_file_version_string<char>() != ver(i.f[2], i.f[3]) || f.get_product_version_string<char>() != ver(i.f[4], i.f[5]) || narrow(f.get_file_version_string<wchar_t>()).size() != ver(i.f[2], i.f[3]).size())) return "version text " + f.get_file_version_string<char>() + " or " + f.get_product_version_string<char>();
    if(i.fixed && (f.is_debug() != ((i.f[7] & 1) != 0) || f.is_prerelease() != ((i.f[7] & 2) != 0) || f.is_patched() != ((i.f[7] & 4) != 0) || f.is_private_build() != ((i.f[7] & 8) != 0) || f.is_info_inferred() != ((i.f[7] & 16) != 0) || f.is_special_build() != ((i.f[7] & 32) != 0))) return "flag queries";
    return "";
}
static void cmpAll(const char* how, const file_version_info& f, const lang_string_values_map& s, const translation_values_map& t, const Info& i) {
    std::string d = cmpFixed(f, i); CHECK(d.empty(), "fixed-wrong", "%s: %s", how, d.c_str());
    lang_string_values_map w = toMap(i.s); if(!(s == w)) { std::string x = strf("%zu tables instead of %zu", s.size(), w.size()); for(auto& a : w) { auto b = s.find(a.first); if(b == s.end()) { x = "no table " + show(a.first); break; } for(auto& kv : a.second) { auto c = b->second.find(kv.first); if(c == b->second.end()) x = "no property " + show(kv.first); else if(c->second != kv.second) x = "value " + show(c->second) + " instead of " + show(kv.second); } } fail("strings-wrong", "%s: %s", how, x.c_str()); }
    CHECK(tv(t) == tv(i.t), "translations-wrong", "%s: %zu translations instead of %zu, or other ones", how, t.size(), i.t.size());
}
static void readLib(Rng& r, const resource_directory& root, u32 lang, const Info& i, const char* how) {
    pe_resource_viewer v(root); resource_version_info_reader rd(v); lang_string_values_map s; translation_values_map t; file_version_info f;
    mustWork("read-refused", how, [&] { f = rd.get_version_info_by_lang(s, t, lang); }); cmpAll(how, f, s, t, i);
    auto order = v.list_resource_languages(pe_resource_viewer::resource_version, 1); u32 pos = static_cast<u32>(std::find(order.begin(), order.end(), lang) - order.begin()); s.clear(); t.clear();
    mustWork("read-refused", how, [&] { f = pos || r.chance(50) ? rd.get_version_info(s, t, pos) : rd.get_version_info(s, t); }); cmpAll(how, f, s, t, i);
    mustRefuse("absent-answered", "version information beyond the last", [&] { rd.get_version_info(s, t, static_cast<u32>(order.size())); }); mustRefuse("absent-answered", "version information in an absent language", [&] { rd.get_version_info_by_lang(s, t, lang ^ 0x5000); });
}
static Bytes dataOf(const resource_directory& d, u32 lang) { return d.entry_by_id(16).get_resource_directory().entry_by_id(1).get_resource_directory().entry_by_id(lang).get_data_entry().get_data(); }
static void reading(Rng& r) {
    Info i = gen(r, true); i.fixed = r.chance(90); if(!i.fixed) for(u32& x : i.f) x = 0; size_t lve; Bytes b = encode(r, i, lve); if(b.size() > 65000) throw CaseSkip(); note_input(b);
    Info chk; if(i.fixed) {} Bytes in = b; if(r.chance(20)) in += r.bytes(r.below(12));
    resource_directory root; pe_resource_manager mg(root); u32 lang = r.chance(50) ? 1033 : r.u32v() & 0xFFF; mg.add_resource(in, pe_resource_viewer::resource_version, 1, lang); if(r.chance(30)) { Info j = gen(r, true); size_t q; mg.add_resource(encode(r, j, q), pe_resource_viewer::resource_version, 1, lang + 0x2000); }
    readLib(r, root, lang, i, "independently encoded information"); count("encodings-read"); if(!i.fixed) count("without-fixed-part");
    Bytes d = b; const char* what = 0;
    switch(r.below(4)) { case 0: d[6 + 2 * r.below(15)] ^= 1; what = "a foreign root key"; break; case 1: if(i.fixed) { d[40 + r.below(8)] ^= 1 << r.below(8); what = "a foreign signature"; } break; case 2: if(lve > 52) { d.resize(lve - 1 - r.below(2)); what = "its last value cut short"; } break; default: d.resize(r.below(38)); what = "only a part of its root"; }
    if(what) { resource_directory q; pe_resource_manager m2(q); m2.add_resource(d, pe_resource_viewer::resource_version, 1, 0); resource_version_info_reader rd(m2); lang_string_values_map s; translation_values_map t; mustRefuse("malformed-accepted", std::string("version information with ") + what, [&] { rd.get_version_info(s, t); }); count("malformed-refused"); }
    nontrivial(fnv(b));
}
static file_version_info toFixed(const Info& i, Rng& r) {
    file_version_info f; if(r.chance(30)) { pe_win::vs_fixedfileinfo x; memcpy(&x, i.f, sizeof x); static_assert(sizeof(x) == sizeof(i.f), "fixed part"); return file_version_info(x); }
    f.set_file_version_ms(i.f[2]); f.set_file_version_ls(i.f[3]); f.set_product_version_ms(i.f[4]); f.set_product_version_ls(i.f[5]); f.set_file_flags(i.f[7]); f.set_file_os_raw(i.f[8]); f.set_file_type_raw(i.f[9]); f.set_file_subtype(i.f[10]); f.set_file_date_ms(i.f[11]); f.set_file_date_ls(i.f[12]);
    return f;
}
static u64 space(const Info& i) { u64 n = 92; if(i.s.size()) { n += 36; for(auto& t : i.s) { n += up(8 + 2 * t.first.size(), 4); for(auto& kv : t.second) n += up(8 + 2 * kv.first.size(), 4) + up(2 + 2 * kv.second.size(), 4); } } if(i.t.size()) n += 64 + 4 * i.t.size(); return n; }
static void writing(Rng& r) {
    resource_directory root; pe_resource_manager mg(root); resource_version_info_writer w(mg); std::map<u32, Info> model; std::map<u32, u32> cps; std::vector<u32> langs = {0, 1033, 1049}; u64 h = 0;
    mg.add_resource("other", pe_resource_viewer::resource_rcdata, 1, 0);
    for(u64 n = 1 + r.below(4); n; --n) {
        u32 l = r.pick(langs);
        if(r.chance(80)) {
            Info i = gen(r, false); u32 cp = r.chance(50) ? 0 : r.u32v(), ts = r.chance(50) ? 0 : r.u32v();
            bool big = r.chance(3), odd = !big && r.chance(4); if(big) { std::u16string& v = i.s[u"040904b0"][u"Comments"]; u64 base = space(i) - up(2 + 2 * v.size(), 4); u64 want = r.chance(50) ? 65536 - r.below(12) : 65500 + r.below(100000); v.assign((want - base) / 2, u'x'); }
            lang_string_values_map s = toMap(i.s); translation_values_map t(i.t.begin(), i.t.end()); file_version_info f = toFixed(i, r); MDir before = fromLib(root);
            if(odd) { s[L"040904b0"][r.chance(50) ? L"A" : L"B\x1F600"] = std::wstring(1, static_cast<wchar_t>(0x10000 + r.below(0xFFFFF))); }
            if(odd || space(i) > 65535) { mustRefuse("unrepresentable-accepted", odd ? "text outside the basic plane" : "information of more than 65535 bytes", [&] { w.set_version_info(f, s, t, l, cp, ts); }); std::string d = diffDir(fromLib(root), before); CHECK(d.empty(), "refusal-changed-tree", "%s", d.c_str()); count(odd ? "unconvertible-refused" : "oversized-refused"); continue; }
            mustWork("write-refused", strf("writing version information of %llu bytes", (unsigned long long)space(i)), [&] { if(cp || ts) w.set_version_info(f, s, t, l, cp, ts); else w.set_version_info(f, s, t, l); }); model[l] = i; cps[l] = cp; count("written");
        } else { bool got = false, want = model.erase(l) > 0; mustWork("remove-refused", "removing version information", [&] { got = w.remove_version_info(l); }); CHECK(got == want, "remove-result-wrong", "removal reported %d", got); count("removed"); }
        CHECK(mg.get_resource_data_by_id(0, pe_resource_viewer::resource_rcdata, 1).get_data() == "other", "other-changed", "another resource changed");
        CHECK(model.empty() ? !mg.resource_exists(pe_resource_viewer::resource_version) : mg.get_language_count(pe_resource_viewer::resource_version, 1) == model.size(), "languages-wrong", "versions in %zu languages expected", model.size());
    }
    for(auto& kv : model) {
        Bytes b = dataOf(root, kv.first); note_input(b); h = fnv(b, h); Info g; try { g = decode(b); } catch(const Bad& e) { fail("written-invalid", "written version information: %s", e.why.c_str()); }
        CHECK(mg.get_resource_data_by_id(kv.first, pe_resource_viewer::resource_version, 1).get_codepage() == cps[kv.first], "codepage-wrong", "code page");
        CHECK(g.fixed && !memcmp(g.f, kv.second.f, sizeof g.f), "written-wrong", "fixed part"); for(int k = 0; k < NFIX; ++k) EQ(g.f[k], kv.second.f[k], "written-wrong", "fixed word %d", k);
        CHECK(g.s == kv.second.s, "written-wrong", "written strings differ"); CHECK(tv(g.t) == tv(kv.second.t), "written-wrong", "written translations differ");
        readLib(r, root, kv.first, kv.second, "written information"); count("written-read");
    }
    if(model.size() && r.chance(15)) { pe_base p = r.chance(50) ? pe_base(pe_properties_64(), 0x1000) : pe_base(pe_properties_32(), 0x1000); section s; s.set_name("rs"); s.readable(true); s.get_raw_data().resize(1); p.add_section(s); rebuild_resources(p, root, p.get_image_sections()[0]); Bytes f = writePe(p); pe_base q = openPe(f); resource_directory back = get_resources(q); for(auto& kv : model) readLib(r, back, kv.first, kv.second, "information from a written file"); count("through-file"); }
    nontrivial(h ^ r.next());
}
typedef const std::wstring (version_info_viewer::*Get)(const std::wstring&) const;
typedef void (version_info_editor::*Set)(const std::wstring&, const std::wstring&);
static void editing(Rng& r) {
    Info i = gen(r, false); if(r.chance(30)) { i.s.clear(); if(r.chance(50)) i.t.clear(); }
    // tables are named by lower-case numbers, or upper-case ones that do not spell the default
    Strs s2; for(auto& t : i.s) { std::u16string k = t.first; bool hex = k.size() == 8 && k != u"041904B0"; for(auto c : k) hex = hex && ((c >= u'0' && c <= u'9') || (c >= u'a' && c <= u'f') || (c >= u'A' && c <= u'F')); if(!hex) k = hex8(genTr(r), false); s2[k] = t.second; } i.s = s2;
    lang_string_values_map s = toMap(i.s), ms = s; translation_values_map t(i.t.begin(), i.t.end()); Trans mt = i.t; version_info_editor ed(s, t);
    static const Get G[8] = {&version_info_viewer::get_company_name, &version_info_viewer::get_file_description, &version_info_viewer::get_file_version, &version_info_viewer::get_internal_name, &version_info_viewer::get_legal_copyright, &version_info_viewer::get_original_filename, &version_info_viewer::get_product_name, &version_info_viewer::get_product_version};
    static const Set S[8] = {&version_info_editor::set_company_name, &version_info_editor::set_file_description, &version_info_editor::set_file_version, &version_info_editor::set_internal_name, &version_info_editor::set_legal_copyright, &version_info_editor::set_original_filename, &version_info_editor::set_product_name, &version_info_editor::set_product_version};
    u64 h = r.next(); std::vector<std::wstring> trs(1); for(auto& x : ms) trs.push_back(x.first); for(int k = 0; k < 3; ++k) trs.push_back(wide(hex8(genTr(r), false)));
    for(u64 n = 1 + r.below(14); n; --n) {
        std::wstring tr = r.pick(trs); size_t k = r.below(8); std::wstring name = r.chance(60) ? wide(PROPS[k]) : wide(r.chance(50) ? std::u16string(PROPS[r.below(11)]) : genName(r, 0, 6, false));
        switch(r.below(5)) {
        case 0: case 1: { std::wstring v = wide(val(r)); auto it = tr.empty() ? ms.find(L"041904b0") : ms.find(tr); if(tr.empty() && it == ms.end()) it = ms.begin();
            if(it == ms.end()) { std::wstring key = tr.empty() ? L"041904b0" : tr; it = ms.insert(std::make_pair(key, string_values_map())).first; u32 x = static_cast<u32>(std::stoul(key, 0, 16)); bool have = false; for(auto& q : mt) have |= q.first == x >> 16 && q.second == (x & 0xFFFF); if(!have) mt.insert(std::make_pair(static_cast<u16>(x >> 16), static_cast<u16>(x))); count("tables-added"); }
            bool named = r.chance(50); if(named) name = wide(PROPS[k]); it->second[name] = v;
            mustWork("set-refused", "setting a property", [&] { if(named) (ed.*S[k])(v, tr); else if(tr.empty() && r.chance(50)) ed.set_property(name, v); else ed.set_property(name, v, tr); }); count("sets"); break; }
        case 2: { u32 x = genTr(r); if(mt.size() && r.chance(50)) { auto it = mt.begin(); std::advance(it, r.below(mt.size())); x = static_cast<u32>(it->first) << 16 | it->second; } bool have = false; for(auto& q : mt) have |= q.first == x >> 16 && q.second == (x & 0xFFFF); if(!have) mt.insert(std::make_pair(static_cast<u16>(x >> 16), static_cast<u16>(x)));
            mustWork("translation-refused", "adding a translation", [&] { if(r.chance(50)) ed.add_translation(wide(hex8(x, r.chance(50)))); else ed.add_translation(static_cast<u16>(x >> 16), static_cast<u16>(x)); }); count("translations-added"); break; }
        case 3: { u32 x = genTr(r); if(mt.size() && r.chance(40)) { auto it = mt.begin(); std::advance(it, r.below(mt.size())); x = static_cast<u32>(it->first) << 16 | it->second; } else if(ms.size() && r.chance(70)) { auto it = ms.begin(); std::advance(it, r.below(ms.size())); x = static_cast<u32>(std::stoul(it->first, 0, 16)); }
            size_t copies = 0; for(auto& q : mt) copies += q.first == x >> 16 && q.second == (x & 0xFFFF);
            if(copies > 1) break; // duplicates are possible only in foreign data, how many go is not specified
            for(auto it = mt.begin(); it != mt.end(); ++it) if(it->first == x >> 16 && it->second == (x & 0xFFFF)) { mt.erase(it); break; }
            ms.erase(wide(hex8(x, false))); ms.erase(wide(hex8(x, true))); for(auto it = ms.begin(); it != ms.end();) if(std::stoul(it->first, 0, 16) == x) ms.erase(it++); else ++it;
            mustWork("translation-refused", "removing a translation", [&] { if(r.chance(50)) ed.remove_translation(wide(hex8(x, r.chance(30)))); else ed.remove_translation(static_cast<u16>(x >> 16), static_cast<u16>(x)); }); count("translations-removed"); break; }
        default: break;
        }
        CHECK(s == ms, "edit-wrong", "string tables differ after an edit"); CHECK(tv(t) == tv(mt), "edit-wrong", "translations differ after an edit");
        auto it = tr.empty() ? ms.find(L"041904b0") : ms.find(tr); if(tr.empty() && it == ms.end()) it = ms.begin();
        bool has = it != ms.end() && it->second.count(name); std::wstring want = has ? it->second[name] : std::wstring(), got; version_info_viewer v(s, t); const version_info_viewer& vw = r.chance(50) ? ed : v;
        mustWork("get-refused", "reading a property", [&] { got = tr.empty() && r.chance(50) ? vw.get_property(name) : vw.get_property(name, tr, false); }); EQ(got, want, "property-wrong", "property");
        if(has) { mustWork("get-refused", "reading a property", [&] { got = vw.get_property(name, tr, true); }); EQ(got, want, "property-wrong", "property"); } else mustRefuse("absent-answered", "an absent property that must exist", [&] { vw.get_property(name, tr, true); });
        std::wstring pn = wide(PROPS[k]); want = it != ms.end() && it->second.count(pn) ? it->second[pn] : std::wstring(); mustWork("get-refused", "reading a named property", [&] { got = (vw.*G[k])(tr); }); EQ(got, want, "property-wrong", "named property %zu", k);
        version_info_viewer::translation_list tl = vw.get_translation_list(), wl; for(auto& q : t) wl.push_back(wide(hex8(static_cast<u32>(q.first) << 16 | q.second, false))); CHECK(tl == wl, "translation-list-wrong", "translation list"); count("gets");
        u32 x = r.u32v(); auto pr = version_info_viewer::translation_from_string(wide(hex8(x, r.chance(50)))); CHECK(pr.first == x >> 16 && pr.second == (x & 0xFFFF), "translation-wrong", "translation %08x", x);
    }
    // named values of the fixed part
    { file_version_info f; static const u32 os[] = {0, 0x10000, 0x20000, 0x30000, 0x40000, 0x50000, 1, 2, 3, 4, 0x10001, 0x10004, 0x20002, 0x30003, 0x40004}; static const u32 ty[] = {0, 1, 2, 3, 4, 5, 7};
      u32 k = static_cast<u32>(1 + r.below(14)); f.set_file_os(static_cast<file_version_info::file_os_type>(k)); EQ(f.get_file_os_raw(), os[k], "enum-wrong", "system %u", k); EQ(static_cast<u32>(f.get_file_os()), k, "enum-wrong", "system %u", k); u32 raw = r.chance(50) ? os[r.below(15)] : r.edge32(); f.set_file_os_raw(raw); u32 w = 0; for(u32 j = 1; j < 15; ++j) if(os[j] == raw) w = j; EQ(static_cast<u32>(f.get_file_os()), w, "enum-wrong", "raw system %x", raw);
      k = static_cast<u32>(1 + r.below(6)); f.set_file_type(static_cast<file_version_info::file_type>(k)); EQ(f.get_file_type_raw(), ty[k], "enum-wrong", "type %u", k); EQ(static_cast<u32>(f.get_file_type()), k, "enum-wrong", "type %u", k); raw = r.chance(50) ? static_cast<u32>(r.below(9)) : r.edge32(); f.set_file_type_raw(raw); w = 0; for(u32 j = 1; j < 7; ++j) if(ty[j] == raw) w = j; EQ(static_cast<u32>(f.get_file_type()), w, "enum-wrong", "raw type %x", raw);
      u32 fl = r.u32v(); f.set_file_flags(fl); bool on = r.chance(50); u32 bit = 0; switch(r.below(6)) { case 0: f.set_debug(on); bit = 1; break; case 1: f.set_prerelease(on); bit = 2; break; case 2: f.set_patched(on); bit = 4; break; case 3: f.set_private_build(on); bit = 8; break; case 4: f.set_info_inferred(on); bit = 16; break; default: f.set_special_build(on); bit = 32; } EQ(f.get_file_flags(), on ? fl | bit : fl & ~bit, "flag-wrong", "flag %x set to %d", bit, on); }
    nontrivial(h);
}
void run_case(Rng& r, u64 idx) { switch(idx % 3) { case 0: reading(r); sample("independently encoded"); break; case 1: writing(r); sample("written by the library"); break; default: editing(r); sample("edit history"); } }
