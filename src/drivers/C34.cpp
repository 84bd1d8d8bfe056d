// Damaged typed resources: a reader refuses or returns exactly what the format stores
#include "../vinfo.h"
#include "../sweep.h"
#include <algorithm>
#include <set>
extern const char* const PROPERTY = "C34";
extern const char* const RULE = "each case encodes string tables, message tables, bitmaps, icon or cursor groups with their images, or version information independently, damages their bytes (fields, lengths, offsets, truncation, extension, removed parts), puts them into a resource tree in memory or through a written file, reads them with every typed reader that applies (by identifier, name, language and index) and compares with a lenient independent decoder of the stored bytes: equal, or refused with the library's exception; where the decoder leaves the resource or finds a part missing only a refusal is accepted, undamaged resources have to be read; non-trivial: the damage changed the bytes; distinct by payloads";
u64 num_cases(bool t) { return t ? 6000000 : 200000; }
void setup() {}
namespace {
typedef pe_resource_viewer V;
u32 g16(const Bytes& b, u64 o) { if(o + 2 > b.size()) bad("ends at %zx inside a field at %llx", b.size(), (unsigned long long)o); return static_cast<u8>(b[o]) | static_cast<u8>(b[o + 1]) << 8; }
u32 g32(const Bytes& b, u64 o) { if(o + 4 > b.size()) bad("ends at %zx inside a field at %llx", b.size(), (unsigned long long)o); u32 v; memcpy(&v, &b[o], 4); return v; }
bool surrogate(const std::u16string& s) { for(char16_t c : s) if(c >= 0xD800 && c < 0xE000) return true; return false; }
std::u16string text16(const Bytes& b, u64 o, u64 n) { if(o + 2 * n > b.size()) bad("text of %llu words leaves the resource", (unsigned long long)n); std::u16string s; for(u64 i = 0; i < n; ++i) s += static_cast<char16_t>(g16(b, o + 2 * i)); return s; }
std::string key(const std::wstring& w) { std::string s; for(wchar_t c : w) s += strf("%x.", static_cast<unsigned>(c)); return s + "|"; }
std::string key(const std::u16string& w) { std::string s; for(char16_t c : w) s += strf("%x.", static_cast<unsigned>(c)); return s + "|"; }
// damages a payload; header: bytes at the beginning that deserve most of it
Bytes hurt(Rng& r, const Bytes& f, size_t header) {
    Bytes b = f; if(r.chance(15)) return mutateBytes(r, f); if(r.chance(6)) return f.substr(0, r.below(r.chance(50) ? 8 : header + 2));
    for(u64 n = r.chance(75) ? 1 : 1 + r.below(4); n; --n) {
        size_t lim = r.chance(60) ? std::min(header, b.size()) : b.size(), w = r.chance(60) ? 2 : r.chance(70) ? 4 : 1; if(b.size() < 4) return b + r.bytes(r.below(4)); if(lim < 4) lim = 4;
        size_t at = r.below(lim - w + 1); if(r.chance(85)) at &= ~(w == 1 ? size_t(0) : size_t(1)); u32 old = 0; memcpy(&old, &b[at], w); u32 v = old;
        switch(r.below(11)) { case 0: v = old + 1 + static_cast<u32>(r.below(4)); break; case 1: v = old - 1 - static_cast<u32>(r.below(4)); break; case 2: v = 0; break; case 3: v = ~0u - static_cast<u32>(r.below(r.chance(50) ? 1 : 16)); break; case 4: v = static_cast<u32>(b.size() - r.below(12)); break; case 5: v = static_cast<u32>(b.size() - at - r.below(12)); break;
            case 6: v = old ^ 1u << r.below(8 * w); break; case 7: { size_t o = r.below(b.size() - w + 1); memcpy(&v, &b[o], w); break; } case 8: v = static_cast<u32>(r.below(64)); break; case 9: b.resize(r.chance(50) ? b.size() - 1 - r.below(std::min<size_t>(b.size() - 1, 8)) : r.below(b.size())); continue; default: if(r.chance(50)) { b += r.bytes(1 + r.below(16)); continue; } v = r.edge32(); }
        memcpy(&b[at], &v, w);
    }
    return b;
}
struct Put { bool named; std::u16string name; u32 id, lang; Bytes data; };
void put(MDir& m, u32 type, const Put& p) {
    MEnt* t = 0; for(MEnt& e : m.e) if(!e.named && e.id == type) t = &e; if(!t) { MEnt e; e.leaf = false; e.id = type; m.e.push_back(e); t = &m.e.back(); }
    MEnt* q = 0; for(MEnt& e : t->sub.e) if(e.named == p.named && (p.named ? e.name == p.name : e.id == p.id)) q = &e; if(!q) { MEnt e; e.leaf = false; e.named = p.named; e.name = p.name; e.id = p.id; t->sub.e.push_back(e); q = &t->sub.e.back(); }
    for(MEnt& e : q->sub.e) if(e.id == p.lang) { e.data = p.data; return; } MEnt e; e.id = p.lang; e.data = p.data; q->sub.e.push_back(e);
}
resource_directory tree(Rng& r, const MDir& m) {
    if(!r.chance(12)) return toLib(m);
    pe_base p = r.chance(50) ? pe_base(pe_properties_64(), 0x1000) : pe_base(pe_properties_32(), 0x1000); section s; s.set_name("rs"); s.readable(true); s.get_raw_data().resize(1); p.add_section(s);
    resource_directory d = toLib(m); rebuild_resources(p, d, p.get_image_sections()[0]); count("through-file"); pe_base q = openPe(writePe(p)); return get_resources(q);
}
// what one reader has to answer
struct Answer { bool stored, ambiguous; std::string why; std::vector<std::string> any; std::string mask; Answer() : stored(true), ambiguous(false) {} };
template<class F> Answer reference(F f) { Answer a; try { f(a); } catch(const Bad& b) { a.stored = false; a.why = b.why; } return a; }
bool g_damaged; u64 g_hash;
void changed(u64 h) { g_hash = g_hash * 31 + h + 1; }
struct Names { const char *what, *read, *refused, *unexplained; };
template<class F> void answer(const Names& n, const std::string& how, const Answer& a, F get) {
    std::string got, refusal; bool worked = true; try { got = get(); } catch(const pe_exception& e) { worked = false; refusal = e.what(); }
    catch(const std::exception& e) { fail("unexpected-exception", "%s, %s: %s", n.what, how.c_str(), e.what()); }
    if(!worked) { CHECK(g_damaged || !a.stored || a.ambiguous, "undamaged-refused", "%s, %s: %s", n.what, how.c_str(), refusal.c_str()); count(a.stored ? n.unexplained : n.refused); return; }
    CHECK(a.stored, "accepted-damaged", "%s, %s: returned %s although %s", n.what, how.c_str(), show(got).c_str(), a.why.c_str());
    if(a.ambiguous) { count("ambiguous"); return; }
    std::string d; for(const std::string& w : a.any) { std::string x = got, y = w; if(a.mask.size() == y.size() && x.size() == y.size()) for(size_t i = 0; i < y.size(); ++i) if(a.mask[i]) x[i] = y[i] = 0; if(x == y) { count(n.read); return; } d = diffAt(x, y); }
    fail("not-what-is-stored", "%s, %s: %s", n.what, how.c_str(), d.c_str());
}
Answer beyond() { Answer a; a.stored = false; a.why = "there is no such index"; return a; }
u32 past(Rng& r, size_t n) { return static_cast<u32>(n + (r.chance(60) ? 0 : r.below(3))); }
const MDir* sub(const MDir& m, u32 type) { for(const MEnt& e : m.e) if(!e.named && e.id == type && !e.leaf) return &e.sub; return 0; }
const MEnt* leafOf(const MDir& m, u32 type, u32 id, u32 lang) { const MDir* t = sub(m, type); if(t) for(const MEnt& e : t->e) if(!e.named && e.id == id) { for(const MEnt& l : e.sub.e) if(l.id == lang) return &l; } return 0; }

// ---- string tables
const Names STR = { "string table", "strings-read", "strings-refused", "strings-refused-though-decodable" };
std::map<u16, std::u16string> refStrings(const Bytes& b, u32 id, bool& sur) { std::map<u16, std::u16string> o; u64 p = 0; for(u32 i = 0; i < 16; ++i) { u32 n = g16(b, p); std::u16string s = text16(b, p + 2, n); p += 2 + 2ull * n; sur = sur || surrogate(s); if(n) o[static_cast<u16>((id - 1) * 16 + i)] = s; } return o; }
void strings(Rng& r) {
    MDir m; std::vector<u32> langs = {0x409, 0, r.u32v() & 0xFFFF}; u32 id = r.chance(80) ? static_cast<u32>(1 + r.below(5)) : r.edge32() & 0x7FFFFFFF; u64 h = 0;
    for(u64 n = 1 + r.below(2); n; --n) { Bytes b; for(int i = 0; i < 16; ++i) { std::u16string s = r.chance(50) ? std::u16string() : genName(r, 0, r.chance(3) ? 900 : 6, r.chance(20)); p16(b, static_cast<u32>(s.size())); str16(b, s, false); }
        if(g_damaged) { Bytes d = r.chance(30) ? b.substr(0, r.below(b.size())) : hurt(r, b, r.chance(50) ? 32 : b.size()); if(d != b) changed(fnv(d)); b = d; } h = fnv(b, h); Put p = { false, u"", id, r.pick(langs), b }; put(m, 6, p); note_input(b); }
    resource_directory root = tree(r, m); MDir t = fromLib(root); V v(root); resource_string_table_reader rd(v); const MDir* all = sub(t, 6);
    for(const MEnt& e : all->e) for(size_t k = 0; k < e.sub.e.size(); ++k) {
        const MEnt& l = e.sub.e[k]; bool sur = false; std::map<u16, std::u16string> w; Answer a = reference([&](Answer& o) { w = refStrings(l.data, e.id, sur); std::string s; for(auto& x : w) s += strf("%x:", x.first) + key(x.second); o.any.push_back(s); o.ambiguous = sur; });
        auto lib = [&](const resource_string_list& g) { std::string s; for(auto& x : g) s += strf("%x:", x.first) + key(x.second); return s; };
        answer(STR, "by language", a, [&] { return lib(rd.get_string_table_by_id_lang(l.id, e.id)); }); answer(STR, "by index", a, [&] { return lib(rd.get_string_table_by_id(e.id, static_cast<u32>(k))); });
        if(!k) answer(STR, "by an index beyond the last", beyond(), [&] { return lib(rd.get_string_table_by_id(e.id, past(r, e.sub.e.size()))); });
        if(e.id >= 1 && e.id <= 0x1000) for(u32 i = 0; i < 16; ++i) { u16 sid = static_cast<u16>((e.id - 1) * 16 + i); Answer s = a; if(s.stored) { s.any.clear(); auto x = w.find(sid); if(x == w.end()) { s.stored = false; s.why = "the string is absent"; } else s.any.push_back(key(x->second)); }
            if(r.chance(50)) answer(STR, strf("string %x by language", sid), s, [&] { return key(rd.get_string_by_id_lang(l.id, sid)); }); else answer(STR, strf("string %x by index", sid), s, [&] { return key(rd.get_string_by_id(sid, static_cast<u32>(k))); }); }
    }
    if(!g_damaged) changed(h);
}
// ---- message tables
const Names MSG = { "message table", "messages-read", "messages-refused", "messages-refused-though-decodable" };
std::string one(bool uni, const std::string& t) { return (uni ? "U" : "A") + t + "\n"; }
void refMessages(const Bytes& b, Answer& o) {
    u32 nb = g32(b, 0); if(4 + 12ull * nb > b.size()) bad("%u blocks leave the resource", nb); std::map<u32, std::string> m;
    for(u32 i = 0; i < nb; ++i) { u32 lo = g32(b, 4 + 12ull * i), hi = g32(b, 8 + 12ull * i); u64 p = g32(b, 12 + 12ull * i); if(lo > hi) bad("block %u ends before it begins", i);
        for(u64 id = lo; id <= hi; ++id) { u32 n = g16(b, p), fl = g16(b, p + 2); if(n < 4 || p + n > b.size()) bad("entry of %u bytes at %llx", n, (unsigned long long)p); std::string t;
            if(fl & 1) { if(n % 2) bad("unicode text of %u bytes", n); std::u16string s = text16(b, p + 4, (n - 4) / 2); o.ambiguous = o.ambiguous || surrogate(s); while(s.size() && !s.back()) s.pop_back(); t = one(true, key(s)); } else { Bytes s = b.substr(p + 4, n - 4); while(s.size() && !s.back()) s.pop_back(); t = one(false, s); }   // texts are padded with zeros
            m.insert(std::make_pair(static_cast<u32>(id), t)); p += n; } }
    std::string s; for(auto& x : m) s += strf("%x=", x.first) + x.second; o.any.push_back(s);
}
void messages(Rng& r) {
    MDir m; u64 h = 0; std::vector<u32> langs = {0x409, 0, r.u32v() & 0xFFFF};
    for(u64 n = 1 + r.below(2); n; --n) {
        u32 nb = static_cast<u32>(r.chance(5) ? 0 : 1 + r.below(4)), id = r.chance(80) ? static_cast<u32>(r.below(100)) : r.chance(50) ? 0xFFFFFF00u : r.u32v() & 0x7FFFFFFF; Bytes hd, d; p32(hd, nb);
        for(u32 i = 0; i < nb; ++i) { u32 k = static_cast<u32>(1 + r.below(5)); p32(hd, id); p32(hd, id + k - 1); p32(hd, static_cast<u32>(4 + 12 * nb + d.size())); id += k + static_cast<u32>(r.below(4));
            for(u32 j = 0; j < k; ++j) { bool u = r.chance(50); Bytes t; if(u) str16(t, genName(r, 0, 8, r.chance(20)), r.chance(70)); else t = r.chance(80) ? Bytes(r.ident(0, 12)) : r.bytes(r.below(20)); if(r.chance(80)) pad4(t); p16(d, static_cast<u32>(4 + t.size())); p16(d, u); d += t; } }
        Bytes b = hd + d; if(g_damaged) { Bytes c = hurt(r, b, 4 + 12 * nb + (r.chance(50) ? 4 : 40)); if(c != b) changed(fnv(c)); b = c; } h = fnv(b, h); Put p = { false, u"", static_cast<u32>(1 + r.below(2)), r.pick(langs), b }; put(m, 11, p); note_input(b); }
    resource_directory root = tree(r, m); MDir t = fromLib(root); V v(root); resource_message_list_reader rd(v);
    auto lib = [](const resource_message_list& g) { std::string s; for(auto& x : g) { const message_table_item& i = x.second; s += strf("%x=", x.first) + one(i.is_unicode(), i.is_unicode() ? key(i.get_unicode_string()) : i.get_ansi_string()); CHECK((i.is_unicode() ? i.get_ansi_string().size() : i.get_unicode_string().size()) == 0, "both-texts", "message %x has both texts", x.first); } return s; };
    for(const MEnt& e : sub(t, 11)->e) for(size_t k = 0; k < e.sub.e.size(); ++k) { const MEnt& l = e.sub.e[k]; Answer a = reference([&](Answer& o) { refMessages(l.data, o); });
        answer(MSG, "by language", a, [&] { return lib(rd.get_message_table_by_id_lang(l.id, e.id)); }); answer(MSG, "by index", a, [&] { return lib(rd.get_message_table_by_id(e.id, static_cast<u32>(k))); }); if(!k) answer(MSG, "by an index beyond the last", beyond(), [&] { return lib(rd.get_message_table_by_id(e.id, past(r, e.sub.e.size()))); }); }
    if(!g_damaged) changed(h);
}
// ---- bitmaps
const Names BMP = { "bitmap", "bitmaps-read", "bitmaps-refused", "bitmaps-refused-though-decodable" };
void refBitmap(const Bytes& b, Answer& o) {
    if(b.size() < 40) bad("no bitmap header"); u32 hs = g32(b, 0), bits = g16(b, 14), comp = g32(b, 16), used = g32(b, 32); u64 colors = used ? used : bits >= 1 && bits <= 8 ? 1u << bits : 0, off = 14 + static_cast<u64>(hs) + 4 * colors + (hs == 40 && comp == 3 ? 12 : 0);
    Bytes w = "BM"; p32(w, static_cast<u32>(14 + b.size())); p32(w, 0); p32(w, static_cast<u32>(off)); w += b; o.any.push_back(w);
    // where the picture begins is unspecified for other headers, other masks, or when it would begin beyond the end
    if(hs < 40 || (hs == 40 && comp > 3) || off > w.size()) { o.mask.assign(w.size(), 0); for(int i = 10; i < 14; ++i) o.mask[i] = 1; }
}
void bitmaps(Rng& r) {
    MDir m; u64 h = 0; std::vector<u32> langs = {0x409, 0, r.u32v() & 0xFFFF};
    for(u64 n = 1 + r.below(3); n; --n) { Bytes b = bmpFile(r).substr(14); if(r.chance(30)) { u32 hs = r.pick(std::vector<u32>{52, 56, 64, 108, 124}); memcpy(&b[0], &hs, 4); b.insert(40, r.bytes(hs - 40)); } else if(r.chance(5)) b.resize(40);
        if(g_damaged) { Bytes c = hurt(r, b, 40); if(c != b) changed(fnv(c)); b = c; } h = fnv(b, h); Put p = { r.chance(40), u"", static_cast<u32>(1 + r.below(2)), r.pick(langs), b }; if(p.named) { p.id = 0; p.name = r.chance(50) ? u"PICTURE" : u"OTHER"; } put(m, 2, p); note_input(b); }
    resource_directory root = tree(r, m); MDir t = fromLib(root); V v(root); resource_bitmap_reader rd(v);
    for(const MEnt& e : sub(t, 2)->e) for(size_t k = 0; k < e.sub.e.size(); ++k) { const MEnt& l = e.sub.e[k]; Answer a = reference([&](Answer& o) { refBitmap(l.data, o); }); u32 i = static_cast<u32>(k); std::wstring nm = wide(e.name);
        answer(BMP, "by language", a, [&] { return e.named ? rd.get_bitmap_by_name(l.id, nm) : rd.get_bitmap_by_id_lang(l.id, e.id); }); answer(BMP, "by index", a, [&] { return e.named ? rd.get_bitmap_by_name(nm, i) : rd.get_bitmap_by_id(e.id, i); });
        if(!k) answer(BMP, "by an index beyond the last", beyond(), [&] { u32 z = past(r, e.sub.e.size()); return e.named ? rd.get_bitmap_by_name(nm, z) : rd.get_bitmap_by_id(e.id, z); }); }
    if(!g_damaged) changed(h);
}
// ---- icon and cursor groups
const Names ICO = { "icon group", "icons-read", "icons-refused", "icons-refused-though-decodable" }, CUR = { "cursor group", "cursors-read", "cursors-refused", "cursors-refused-though-decodable" }, ICO1 = { "single icon", "single-icons-read", "single-icons-refused", "single-icons-refused-though-decodable" }, CUR1 = { "single cursor", "single-cursors-read", "single-cursors-refused", "single-cursors-refused-though-decodable" };
struct Group { u32 n; };
u32 groupCount(const Bytes& g) { u32 n = g16(g, 4); if(6 + 14ull * n > g.size()) bad("%u images leave the group of %zu bytes", n, g.size()); return n; }
// one entry of an icon or cursor file; size of the image is masked where it is nonsense
Bytes entry(const Bytes& g, u64 at, bool cur, const Bytes& image, u32 off, u32& size, bool& odd) {
    size = g32(g, at + 8); odd = size != image.size(); Bytes e; if(!cur) { e = g.substr(at, 8); p32(e, size); p32(e, off); return e; }
    if(image.size() < 4) bad("cursor of %zu bytes has no hotspot", image.size()); odd = odd || size < 4; size -= 4; e += g[at]; e += static_cast<char>(g16(g, at + 2) / 2); e += Bytes(2, '\0'); e += image.substr(0, 4); p32(e, size); p32(e, off); return e;
}
void refGroup(const MDir& t, const Bytes& g, bool cur, u32 lang, Answer& o) {
    if(g.size() < 6) bad("no group header"); u32 n = groupCount(g), off = 6 + 16 * n, size; Bytes w = g.substr(0, 6), data; o.mask.assign(6, 0); bool blur = false, odd;
    for(u32 i = 0; i < n; ++i) { const MEnt* im = leafOf(t, cur ? 1 : 3, g16(g, 6 + 14ull * i + 12), lang); if(!im) bad("image %u is absent", g16(g, 6 + 14ull * i + 12)); w += entry(g, 6 + 14ull * i, cur, im->data, off, size, odd); Bytes k(16, 0); if(blur) for(int j = 12; j < 16; ++j) k[j] = 1; if(odd && cur) for(int j = 8; j < 12; ++j) k[j] = 1; o.mask += k; blur = blur || odd; off += size; data += cur ? im->data.substr(4) : im->data; }
    o.mask += Bytes(data.size(), 0); o.any.push_back(w + data);
}
void refSingle(const MDir& t, const Bytes& image, bool cur, u32 number, u32 lang, Answer& o) { // as described by any group of its language that lists it
    const MDir* gs = sub(t, cur ? 12 : 14); std::string why = "no group lists it"; bool odd; u32 size;
    if(gs) for(const MEnt& e : gs->e) for(const MEnt& l : e.sub.e) if(l.id == lang) { const Bytes& g = l.data; try { if(g.size() < 6) bad("short group"); u32 n = groupCount(g); for(u32 i = 0; i < n; ++i) if(g16(g, 6 + 14ull * i + 12) == number) { Bytes w = g.substr(0, 4); p16(w, 1); w += entry(g, 6 + 14ull * i, cur, image, 22, size, odd); if(odd && cur && o.mask.empty()) { o.mask.assign(w.size() + image.size() - 4, 0); for(int j = 14; j < 18; ++j) o.mask[j] = 1; } o.any.push_back(w + (cur ? image.substr(4) : image)); } } catch(const Bad& b) { why = b.why; } }
    if(o.any.empty()) bad("%s", why.c_str());
}
void groups(Rng& r) {
    bool cur = r.chance(50); MDir m; u64 h = 0; u32 langs[2] = {0x409, r.chance(50) ? 0 : r.u32v() & 0xFFFF}; u32 it = cur ? 1 : 3, gt = cur ? 12 : 14; std::map<std::pair<u32, u32>, Bytes> images; int hurts = 0;
    u32 count0 = static_cast<u32>(1 + r.below(4)); for(u32 id = 1; id <= count0; ++id) for(u32 l : langs) { Bytes d = r.bytes((cur ? 4 : 0) + r.below(50)); if(g_damaged && r.chance(6)) { d.resize(r.below(std::min<size_t>(d.size(), 4) + 1)); ++hurts; } if(g_damaged && r.chance(6)) { ++hurts; continue; } images[{id, l}] = d; Put p = { false, u"", id, l, d }; put(m, it, p); h = fnv(d, h); }
    for(u64 n = 1 + r.below(3); n; --n) { u32 l = langs[r.below(2)], k = static_cast<u32>(r.below(4)); Bytes g; p16(g, r.chance(80) ? 0 : r.u32v()); p16(g, r.chance(80) ? (cur ? 2 : 1) : r.u32v()); p16(g, k);
        for(u32 i = 0; i < k; ++i) { u32 id = static_cast<u32>(1 + r.below(count0)); auto im = images.find({id, l}); g += r.bytes(8); p32(g, im == images.end() ? 10 : static_cast<u32>(im->second.size())); p16(g, id); }
        if(r.chance(20)) g += r.bytes(r.below(9)); if(g_damaged) { Bytes c = hurt(r, g, r.chance(50) ? 6 : g.size()); hurts += c != g; g = c; }
        Put p = { r.chance(40), u"", static_cast<u32>(1 + r.below(2)), l, g }; if(p.named) { p.id = 0; p.name = r.chance(50) ? u"MAIN" : u"OTHER"; } put(m, gt, p); h = fnv(g, h); note_input(g); }
    if(!g_damaged || hurts) changed(h);
    resource_directory root = tree(r, m); MDir t = fromLib(root); V v(root); resource_cursor_icon_reader rd(v);
    for(const MEnt& e : sub(t, gt)->e) for(size_t k = 0; k < e.sub.e.size(); ++k) { const MEnt& l = e.sub.e[k]; Answer a = reference([&](Answer& o) { refGroup(t, l.data, cur, l.id, o); }); u32 i = static_cast<u32>(k); std::wstring nm = wide(e.name);
        answer(cur ? CUR : ICO, "by language", a, [&] { return cur ? (e.named ? rd.get_cursor_by_name(l.id, nm) : rd.get_cursor_by_id_lang(l.id, e.id)) : e.named ? rd.get_icon_by_name(l.id, nm) : rd.get_icon_by_id_lang(l.id, e.id); });
        answer(cur ? CUR : ICO, "by index", a, [&] { return cur ? (e.named ? rd.get_cursor_by_name(nm, i) : rd.get_cursor_by_id(e.id, i)) : e.named ? rd.get_icon_by_name(nm, i) : rd.get_icon_by_id(e.id, i); });
        if(!k) answer(cur ? CUR : ICO, "by an index beyond the last", beyond(), [&] { u32 z = past(r, e.sub.e.size()); return cur ? (e.named ? rd.get_cursor_by_name(nm, z) : rd.get_cursor_by_id(e.id, z)) : e.named ? rd.get_icon_by_name(nm, z) : rd.get_icon_by_id(e.id, z); }); }
    const MDir* is = sub(t, it); if(is) for(const MEnt& e : is->e) for(size_t k = 0; k < e.sub.e.size(); ++k) { const MEnt& l = e.sub.e[k]; Answer a = reference([&](Answer& o) { refSingle(t, l.data, cur, e.id, l.id, o); }); u32 i = static_cast<u32>(k);
        answer(cur ? CUR1 : ICO1, "by language", a, [&] { return cur ? rd.get_single_cursor_by_id_lang(l.id, e.id) : rd.get_single_icon_by_id_lang(l.id, e.id); }); answer(cur ? CUR1 : ICO1, "by index", a, [&] { return cur ? rd.get_single_cursor_by_id(e.id, i) : rd.get_single_icon_by_id(e.id, i); });
        if(!k) answer(cur ? CUR1 : ICO1, "by an index beyond the last", beyond(), [&] { u32 z = past(r, e.sub.e.size()); return cur ? rd.get_single_cursor_by_id(e.id, z) : rd.get_single_icon_by_id(e.id, z); }); }
}
// ---- version information
const Names VER = { "version information", "versions-read", "versions-refused", "versions-refused-though-decodable" };
struct Blk { u64 at, val, end, next; u32 vl; std::u16string key; };
Blk block(const Bytes& b, u64 at, u64 parentEnd, Answer& o, bool root = false) {
    Blk k; u32 len = g16(b, at); k.at = at; k.vl = g16(b, at + 2); g16(b, at + 4); u64 p = at + 6; for(;; p += 2) { u32 c = g16(b, p); if(!c) break; k.key += static_cast<char16_t>(c); } if(!root && at + len < p + 2) bad("block of %u bytes at %llx is shorter than its key", len, (unsigned long long)at);
    k.val = up(static_cast<u32>(p + 2), 4); k.end = std::min<u64>(at + len, parentEnd); k.next = at + up(len, 4); o.ambiguous = o.ambiguous || surrogate(k.key); return k;
}
std::string verText(const u32* f, const std::map<std::string, std::map<std::string, std::string> >& s, std::vector<std::pair<u16, u16> > t) {
    std::string o; for(int k : {2, 3, 4, 5, 7, 8, 9, 10, 11, 12}) o += strf("%x,", f[k]); std::sort(t.begin(), t.end()); for(auto& x : t) o += strf("[%x %x]", x.first, x.second); for(auto& x : s) { o += "\n" + x.first + "{"; for(auto& y : x.second) o += y.first + "=" + y.second; o += "}"; } return o;
}
void refVersion(const Bytes& b, Answer& o) {
    u32 f[13] = {0}; std::map<std::string, std::map<std::string, std::string> > s; std::vector<std::pair<u16, u16> > t; if(b.size() < 8) bad("no block");
    Blk root = block(b, 0, ~0ull >> 1, o, true); if(root.key != u"VS_VERSION_INFO") bad("root key");
    if(root.vl) { for(int i = 0; i < 13; ++i) f[i] = g32(b, root.val + 4 * i); if(f[0] != 0xFEEF04BD || f[1] != 0x10000) bad("signature"); if(root.vl != 52) o.ambiguous = true; }
    auto first = [](const Blk& k) { return k.val + up(k.vl, 4); };
    for(u64 p = first(root); p < root.end;) { Blk c = block(b, p, root.end, o);
        if(c.key == u"StringFileInfo") for(u64 q = first(c); q < c.end;) { Blk st = block(b, q, c.end, o); std::map<std::string, std::string> m;
            for(u64 z = first(st); z < st.end;) { Blk x = block(b, z, st.end, o); std::u16string v; if(x.vl) { v = text16(b, x.val, x.vl); if(x.val + 2ull * x.vl > up(static_cast<u32>(x.at + g16(b, x.at)), 4)) o.ambiguous = true; while(v.size() && !v.back()) v.pop_back(); } o.ambiguous = o.ambiguous || surrogate(v); m.insert(std::make_pair(key(x.key), key(v))); z = x.next; }
            s.insert(std::make_pair(key(st.key), m)); q = st.next; }
        else if(c.key == u"VarFileInfo") for(u64 q = first(c); q < c.end;) { Blk x = block(b, q, c.end, o); if(x.key == u"Translation" && x.vl) { if(x.val + x.vl > b.size()) bad("translations leave the resource"); if(x.val + x.vl > up(static_cast<u32>(x.at + g16(b, x.at)), 4)) o.ambiguous = true; for(u32 i = 0; i + 4 <= x.vl; i += 4) t.push_back(std::make_pair(static_cast<u16>(g16(b, x.val + i)), static_cast<u16>(g16(b, x.val + i + 2)))); } q = x.next; }
        else bad("foreign block");
        p = c.next; }
    o.any.push_back(verText(f, s, t));
}
void versions(Rng& r) {
    MDir m; u64 h = 0; u32 langs[2] = {0x409, r.u32v() & 0xFFFF};
    for(u64 n = 1 + r.below(2); n; --n) { Info i = gen(r, true); i.fixed = r.chance(90); size_t lve; Bytes b = encode(r, i, lve); if(b.size() > 8000) throw CaseSkip();
        if(g_damaged) { Bytes c; if(r.chance(35)) { // a length or value length of some block, or its key
                c = b; std::vector<size_t> at; for(size_t k = 0; k + 8 <= b.size(); k += 4) { u32 l = g16(b, k), v = g16(b, k + 2), ty = g16(b, k + 4); if(l >= 8 && k + l <= b.size() && v <= l && ty < 2) at.push_back(k); }
                for(u64 z = r.chance(70) ? 1 : 2; z; --z) { size_t k = r.pick(at); u32 w = r.below(100) < 45 ? 0 : r.chance(80) ? 2 : 4, old = g16(c, k + w); u32 v = old; switch(r.below(7)) { case 0: v = old + 1 + static_cast<u32>(r.below(8)); break; case 1: v = old - 1 - static_cast<u32>(r.below(8)); break; case 2: v = 0; break; case 3: v = 65535 - static_cast<u32>(r.below(8)); break; case 4: v = static_cast<u32>(b.size() - k); break; case 5: v = static_cast<u32>(r.below(40)); break; default: v = old * 2; } set16(c, k + w, v); }
            } else c = hurt(r, b, 6 + 32 + 60 + 40); if(c != b) changed(fnv(c)); b = c; }
        h = fnv(b, h); Put p = { false, u"", 1, langs[r.below(2)], b }; put(m, 16, p); note_input(b); }
    resource_directory root = tree(r, m); MDir t = fromLib(root); V v(root); resource_version_info_reader rd(v);
    auto lib = [](const file_version_info& f, const lang_string_values_map& s, const translation_values_map& t) { u32 w[13] = {0, 0, f.get_file_version_ms(), f.get_file_version_ls(), f.get_product_version_ms(), f.get_product_version_ls(), 0, f.get_file_flags(), f.get_file_os_raw(), f.get_file_type_raw(), f.get_file_subtype(), f.get_file_date_ms(), f.get_file_date_ls()};
        std::map<std::string, std::map<std::string, std::string> > q; for(auto& x : s) { auto& y = q[key(x.first)]; for(auto& z : x.second) y[key(z.first)] = key(z.second); } std::vector<std::pair<u16, u16> > u; for(auto& x : t) u.push_back(std::make_pair(x.first, x.second)); return verText(w, q, u); };
    const MEnt& e = sub(t, 16)->e[0]; for(size_t k = 0; k < e.sub.e.size(); ++k) { const MEnt& l = e.sub.e[k]; Answer a = reference([&](Answer& o) { refVersion(l.data, o); });
        answer(VER, "by language", a, [&] { lang_string_values_map s; translation_values_map t2; file_version_info f = rd.get_version_info_by_lang(s, t2, l.id); return lib(f, s, t2); }); answer(VER, "by index", a, [&] { lang_string_values_map s; translation_values_map t2; file_version_info f = rd.get_version_info(s, t2, static_cast<u32>(k)); return lib(f, s, t2); });
        if(!k) answer(VER, "by an index beyond the last", beyond(), [&] { lang_string_values_map s; translation_values_map t2; file_version_info f = rd.get_version_info(s, t2, past(r, e.sub.e.size())); return lib(f, s, t2); }); }
    if(!g_damaged) changed(h);
}
}
void run_case(Rng& r, u64 idx) {
    g_damaged = !r.chance(12); g_hash = 0;
    switch(idx % 5) { case 0: strings(r); sample("string tables"); break; case 1: messages(r); sample("message tables"); break; case 2: bitmaps(r); sample("bitmaps"); break; case 3: groups(r); sample("icon and cursor groups"); break; default: versions(r); sample("version information"); }
    if(g_hash) nontrivial(g_hash); if(!g_damaged) count("undamaged-cases");
}
