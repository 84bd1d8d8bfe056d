// Bitmaps, string tables and message tables
#include "../gens.h"
#include <algorithm>
#include <map>
#include <set>
extern const char* const PROPERTY = "C20";
extern const char* const RULE = "each case builds a resource tree holding independently encoded bitmaps (every header version, depth, palette and mask layout), string blocks (any lengths, empty strings, identifiers over the whole range) or message tables (one or more blocks, ANSI and Unicode, minimal and large texts, extreme identifiers) under several identifiers, names and languages - in memory or read from a file - and requires every way of reading them to give the stored values and every absent key to be refused; bitmaps are also added, replaced and removed through the writer with the whole tree compared; truncated blocks must be refused; non-trivial: every case; distinct by contents";
u64 num_cases(bool t) { return t ? 1800000 : 60000; }
void setup() {}
static void p16(Bytes& b, u32 v) { b += static_cast<char>(v); b += static_cast<char>(v >> 8); }
static void p32(Bytes& b, u32 v) { p16(b, v); p16(b, v >> 16); }
static MEnt leafE(u32 lang, const Bytes& d, u32 cp = 0) { MEnt e; e.id = lang; e.data = d; e.cp = cp; return e; }
static MEnt dirE(u32 id) { MEnt e; e.leaf = false; e.id = id; return e; }
static MEnt dirN(const std::u16string& n) { MEnt e; e.leaf = false; e.named = true; e.name = n; return e; }
static resource_directory tree(Rng& r, MDir& m) { // in memory, or through a file
    if(!r.chance(15)) return toLib(m);
    pe_base p = r.chance(50) ? pe_base(pe_properties_64(), 0x1000) : pe_base(pe_properties_32(), 0x1000); section s; s.set_name("rs"); s.readable(true); s.get_raw_data().resize(1); p.add_section(s);
    resource_directory d = toLib(m); rebuild_resources(p, d, p.get_image_sections()[0]); Bytes f = writePe(p); pe_base q = openPe(f); count("through-file"); return get_resources(q);
}
// ---- bitmaps
static Bytes genBitmap(Rng& r) { // a whole file
    static const u16 depths[] = {1, 4, 8, 16, 24, 32, 2, 0}; u16 bits = depths[r.below(8)]; u32 hs = r.chance(70) ? 40 : r.pick(std::vector<u32>{52, 56, 64, 108, 124}), comp = 0;
    if(bits == 0) comp = 4 + static_cast<u32>(r.below(2)); else if((bits == 16 || bits == 32) && r.chance(50)) comp = 3; else if(bits == 8 && r.chance(20)) comp = 1; else if(bits == 4 && r.chance(20)) comp = 2;
    u32 used = 0; if(bits && bits <= 8 && r.chance(40)) used = static_cast<u32>(r.range(1, 1u << bits)); else if(bits > 8 && r.chance(15)) used = static_cast<u32>(r.below(300));
    u32 colors = used ? used : bits && bits <= 8 ? 1u << bits : 0, off = 14 + hs + 4 * colors + (comp == 3 && hs == 40 ? 12 : 0);
    u32 w = static_cast<u32>(1 + r.below(20)), h = static_cast<u32>(1 + r.below(8)); Bytes info; p32(info, hs); p32(info, w); p32(info, r.chance(20) ? -h : h); p16(info, 1); p16(info, bits); p32(info, comp); Bytes px = r.bytes(bits ? ((w * bits + 31) / 32 * 4) * h : r.below(50));
    p32(info, r.chance(50) ? 0 : static_cast<u32>(px.size())); p32(info, r.u32v() & 0xFFFF); p32(info, r.u32v() & 0xFFFF); p32(info, used); p32(info, r.chance(80) ? 0 : used); info += r.bytes(hs - 40); info += r.bytes(off - 14 - hs); info += px;
    Bytes b = "BM"; p32(b, static_cast<u32>(14 + info.size())); p32(b, 0); p32(b, off);
    count("bitmaps"); if(hs != 40) count("extended-headers"); if(comp == 3) count("masked-bitmaps");
    return b + info;
}
static void bitmaps(Rng& r) {
    resource_directory root; MDir m; pe_resource_manager mg(root); resource_bitmap_writer w(mg); std::vector<u32> langs = {0, 1033, r.u32v() & 0xFFFF}; int steps = static_cast<int>(1 + r.below(6)); u64 h = 0;
    struct K { bool named; std::u16string n; u32 id; }; std::vector<K> ks; for(int i = 0; i < 3; ++i) { K k; k.named = r.chance(50); k.id = static_cast<u32>(r.chance(50) ? r.below(3) : r.edge32() & 0x7FFFFFFF); if(k.named) k.n = genName(r, 1, 5, false); ks.push_back(k); }
    std::map<std::pair<size_t, u32>, Bytes> model; // key -> file as it has to read back
    for(int s = 0; s < steps; ++s) {
        size_t ki = r.below(3); for(size_t j = 0; j < ki; ++j) if(ks[j].named == ks[ki].named && (ks[j].named ? ks[j].n == ks[ki].n : ks[j].id == ks[ki].id)) ki = j;
        const K& k = ks[ki]; u32 l = r.pick(langs); std::wstring n = wide(k.n);
        if(r.chance(75)) {
            Bytes f = genBitmap(r), in = f; h = fnv(f, h); if(r.chance(20)) { in.replace(2, 12, r.bytes(12)); count("odd-file-headers"); } // the file header is rebuilt from the picture
            u32 cp = r.chance(50) ? 0 : r.u32v(), ts = r.chance(50) ? 0 : r.u32v(); note_input(in);
            mustWork("add-refused", "adding a bitmap", [&] { k.named ? w.add_bitmap(in, n, l, cp, ts) : w.add_bitmap(in, k.id, l, cp, ts); }); model[{ki, l}] = f;
            MEnt* t = 0; for(MEnt& e : m.e) t = &e; if(!t) { m.e.push_back(dirE(2)); t = &m.e.back(); t->sub.ts = ts; }
            MEnt* q = 0; for(MEnt& e : t->sub.e) if(e.named == k.named && (k.named ? e.name == k.n : e.id == k.id)) q = &e; if(!q) { t->sub.e.push_back(k.named ? dirN(k.n) : dirE(k.id)); q = &t->sub.e.back(); q->sub.ts = ts; }
            for(size_t i = 0; i < q->sub.e.size(); ++i) if(q->sub.e[i].id == l) { q->sub.e.erase(q->sub.e.begin() + i); break; } q->sub.e.push_back(leafE(l, in.substr(14), cp));
            if(r.chance(20)) { Bytes shortf = f.substr(0, r.below(14)); mustRefuse("malformed-accepted", "a bitmap file without a header", [&] { k.named ? w.add_bitmap(shortf, n, l) : w.add_bitmap(shortf, k.id, l); }); }
        } else {
            bool got = false, want = model.erase({ki, l}) > 0; mustWork("remove-refused", "removing a bitmap", [&] { got = k.named ? w.remove_bitmap(n, l) : w.remove_bitmap(k.id, l); }); CHECK(got == want, "remove-result-wrong", "removing a bitmap reported %d", got); count("bitmap-removals");
            if(want) { MDir& t = m.e[0].sub; for(size_t i = 0; i < t.e.size(); ++i) if(t.e[i].named == k.named && (k.named ? t.e[i].name == k.n : t.e[i].id == k.id)) { MDir& q = t.e[i].sub; for(size_t j = 0; j < q.e.size(); ++j) if(q.e[j].id == l) { q.e.erase(q.e.begin() + j); break; } if(q.e.empty()) t.e.erase(t.e.begin() + i); break; } if(t.e.empty()) m.e.clear(); }
        }
        MDir g = fromLib(root), x = m; sortDir(g); sortDir(x); std::string d = diffDir(g, x); CHECK(d.empty(), "tree-wrong", "after editing bitmaps: %s", d.c_str());
    }
    resource_directory back = m.e.empty() ? root : tree(r, m); pe_resource_viewer v(back); resource_bitmap_reader rd(v);
    for(size_t ki = 0; ki < 3; ++ki) for(u32 l : langs) {
        size_t kj = ki; for(size_t j = 0; j < ki; ++j) if(ks[j].named == ks[ki].named && (ks[j].named ? ks[j].n == ks[ki].n : ks[j].id == ks[ki].id)) { kj = j; break; }
        const K& k = ks[kj]; std::wstring n = wide(k.n); auto it = model.find({kj, l});
        auto get = [&] { return k.named ? rd.get_bitmap_by_name(l, n) : rd.get_bitmap_by_id_lang(l, k.id); };
        if(it == model.end()) { mustRefuse("absent-answered", "an absent bitmap", [&] { get(); }); continue; }
        Bytes g; mustWork("read-refused", "reading a bitmap", [&] { g = get(); }); CHECK(g == it->second, "bitmap-wrong", "bitmap: %s", diffAt(g, it->second).c_str());
        auto order = k.named ? v.list_resource_languages(pe_resource_viewer::resource_bitmap, n) : v.list_resource_languages(pe_resource_viewer::resource_bitmap, k.id); u32 pos = static_cast<u32>(std::find(order.begin(), order.end(), l) - order.begin());
        mustWork("read-refused", "reading a bitmap by position", [&] { g = k.named ? rd.get_bitmap_by_name(n, pos) : rd.get_bitmap_by_id(k.id, pos); }); CHECK(g == it->second, "bitmap-wrong", "bitmap by position: %s", diffAt(g, it->second).c_str()); count("bitmaps-read");
        mustRefuse("absent-answered", "a bitmap at a position beyond the last", [&] { k.named ? rd.get_bitmap_by_name(n, static_cast<u32>(order.size())) : rd.get_bitmap_by_id(k.id, static_cast<u32>(order.size())); });
    }
    nontrivial(h ^ r.next());
}
// ---- string tables
typedef std::map<u16, std::u16string> Strs;
static Bytes encodeBlock(const std::vector<std::u16string>& s) { Bytes b; for(const auto& x : s) { p16(b, static_cast<u32>(x.size())); for(char16_t c : x) p16(b, c); } return b; }
static std::u16string text(Rng& r, size_t max) { std::u16string s = genName(r, 0, max, r.chance(30)); if(s.size() && r.chance(5)) s[r.below(s.size())] = 0; return s; }
static void strings(Rng& r) {
    std::map<std::pair<u32, u32>, std::vector<std::u16string> > model; MDir m; m.e.push_back(dirE(6)); std::vector<u32> langs = {0, 1033, 7}; u64 h = 0;
    for(u64 n = 1 + r.below(4); n; --n) { u32 id = r.chance(40) ? static_cast<u32>(1 + r.below(3)) : r.chance(30) ? 4096 : static_cast<u32>(1 + r.below(4096)); MEnt* q = 0; for(MEnt& e : m.e[0].sub.e) if(e.id == id) q = &e; if(q) continue; m.e[0].sub.e.push_back(dirE(id)); q = &m.e[0].sub.e.back();
        for(u32 l : langs) if(r.chance(50) || q->sub.e.empty()) { std::vector<std::u16string> s(16); for(auto& x : s) if(r.chance(60)) x = text(r, r.chance(5) ? 400 : 12); if(r.chance(1)) s[r.below(16)] = std::u16string(65535, u'z'); Bytes b = encodeBlock(s); if(r.chance(15)) b += r.bytes(r.below(8)); q->sub.e.push_back(leafE(l, b)); model[{id, l}] = s; h = fnv(b, h); note_input(b); } }
    if(r.chance(50)) r.shuffle(m.e[0].sub.e);
    resource_directory root = tree(r, m); pe_resource_viewer v(root); resource_string_table_reader rd(v);
    for(auto& kv : model) {
        u32 id = kv.first.first, l = kv.first.second; resource_string_list want; for(u32 i = 0; i < 16; ++i) if(kv.second[i].size()) want[static_cast<u16>((id - 1) * 16 + i)] = wide(kv.second[i]);
        resource_string_list g; mustWork("read-refused", strf("string block %u", id), [&] { g = rd.get_string_table_by_id_lang(l, id); }); CHECK(g == want, "strings-wrong", "string block %u has %zu strings instead of %zu, or other ones", id, g.size(), want.size());
        auto order = v.list_resource_languages(pe_resource_viewer::resource_string, id); u32 pos = static_cast<u32>(std::find(order.begin(), order.end(), l) - order.begin());
        mustWork("read-refused", strf("string block %u by position", id), [&] { g = rd.get_string_table_by_id(id, pos); }); CHECK(g == want, "strings-wrong", "string block %u by position %u differs", id, pos);
        for(u32 i = 0; i < 16; ++i) { u16 sid = static_cast<u16>((id - 1) * 16 + i); if(!r.chance(40)) continue;
            if(kv.second[i].empty()) { mustRefuse("absent-answered", strf("absent string %u", sid), [&] { rd.get_string_by_id_lang(l, sid); }); mustRefuse("absent-answered", strf("absent string %u", sid), [&] { rd.get_string_by_id(sid, pos); }); }
            else { std::wstring x, y; mustWork("read-refused", strf("string %u", sid), [&] { x = rd.get_string_by_id_lang(l, sid); y = rd.get_string_by_id(sid, pos); }); CHECK(x == wide(kv.second[i]) && y == x, "strings-wrong", "string %u: %s and %s instead of %s", sid, show(x).c_str(), show(y).c_str(), show(wide(kv.second[i])).c_str()); count("strings-read"); } }
        mustRefuse("absent-answered", "a string block at a position beyond the last", [&] { rd.get_string_table_by_id(id, static_cast<u32>(order.size())); });
    }
    { u32 id; do id = static_cast<u32>(1 + r.below(4096)); while([&] { for(auto& kv : model) if(kv.first.first == id) return true; return false; }()); mustRefuse("absent-answered", "a string of an absent block", [&] { rd.get_string_by_id(static_cast<u16>((id - 1) * 16 + r.below(16))); }); }
    // a block cut short
    { Bytes b = encodeBlock(model.begin()->second); resource_directory rt; pe_resource_manager mg(rt); mg.add_resource(b.substr(0, r.below(b.size())), pe_resource_viewer::resource_string, 1, 0); resource_string_table_reader x(mg); mustRefuse("truncated-accepted", "a string block cut short", [&] { x.get_string_table_by_id(1); }); count("truncated-refused"); }
    nontrivial(h);
}
// ---- message tables
struct Msg { bool uni; Bytes a; std::u16string u; };
static void messages(Rng& r) {
    std::map<u32, Msg> model; struct Blk { u32 lo; std::vector<Msg> m; u32 off; }; std::vector<Blk> bl; u64 nb = r.chance(10) ? 0 : 1 + r.below(4); u32 next = r.chance(50) ? static_cast<u32>(r.below(10)) : r.edge32() & 0xFFFFFF;
    for(u64 i = 0; i < nb; ++i) { Blk b; b.lo = next; b.off = 0; size_t n = r.chance(50) ? 1 : 1 + r.below(8); if(i + 1 == nb && r.chance(25)) b.lo = static_cast<u32>(0u - n);
        for(size_t k = 0; k < n; ++k) { Msg x; x.uni = r.chance(50); size_t len = r.chance(2) ? 16000 : r.below(r.chance(20) ? 300 : 12); if(x.uni) { x.u = genName(r, len, len, r.chance(30)); if(len > 2 && r.chance(10)) x.u[0] = 0; } else { x.a = r.nzbytes(len); if(len > 2 && r.chance(10)) x.a[0] = 0; } model[b.lo + static_cast<u32>(k)] = x; b.m.push_back(x); }
        next = b.lo + static_cast<u32>(n) + static_cast<u32>(r.chance(50) ? 0 : r.below(1000)); bl.push_back(b); }
    Bytes t; p32(t, static_cast<u32>(bl.size())); t.resize(4 + 12 * bl.size()); std::vector<size_t> ord; for(size_t i = 0; i < bl.size(); ++i) ord.push_back(i); if(r.chance(40)) r.shuffle(ord); bool gaps = r.chance(20); u32 pads = static_cast<u32>(r.below(3)); size_t lastStart = 0;
    for(size_t i : ord) { if(gaps) t += r.bytes(4 * r.below(3)); bl[i].off = static_cast<u32>(t.size());
        for(const Msg& x : bl[i].m) { Bytes e; if(x.uni) { for(char16_t c : x.u) p16(e, c); } else e = x.a; if(pads >= 1) { if(x.uni) p16(e, 0); else e += '\0'; } if(pads == 2 || x.uni) while(e.size() % (x.uni && pads < 2 ? 2 : 4)) e += '\0'; lastStart = t.size(); p16(t, static_cast<u32>(4 + e.size())); p16(t, x.uni ? 1 : 0); t += e; } }
    for(size_t i = 0; i < bl.size(); ++i) { Bytes e; p32(e, bl[i].lo); p32(e, bl[i].lo + static_cast<u32>(bl[i].m.size()) - 1); p32(e, bl[i].off); t.replace(4 + 12 * i, 12, e); }
    if(r.chance(20)) t += r.bytes(r.below(10)); note_input(t);
    MDir m; m.e.push_back(dirE(11)); u32 id = r.chance(50) ? 1 : r.edge32() & 0x7FFFFFFF, lang = r.chance(50) ? 0 : 1033; m.e[0].sub.e.push_back(dirE(id)); if(r.chance(30)) m.e[0].sub.e[0].sub.e.push_back(leafE(5, Bytes(4, '\0'))); m.e[0].sub.e[0].sub.e.push_back(leafE(lang, t));
    resource_directory root = tree(r, m); pe_resource_viewer v(root); resource_message_list_reader rd(v); resource_message_list g; bool byPos = r.chance(50);
    auto order = v.list_resource_languages(pe_resource_viewer::resource_message_table, id); u32 pos = static_cast<u32>(std::find(order.begin(), order.end(), lang) - order.begin());
    mustWork("read-refused", strf("message table of %zu blocks", bl.size()), [&] { g = byPos ? rd.get_message_table_by_id(id, pos) : rd.get_message_table_by_id_lang(lang, id); });
    CHECK(g.size() == model.size(), "messages-wrong", "%zu messages instead of %zu", g.size(), model.size());
    for(auto& kv : model) { auto it = g.find(kv.first); CHECK(it != g.end(), "messages-wrong", "message %x is missing", kv.first); CHECK(it->second.is_unicode() == kv.second.uni, "messages-wrong", "message %x has the other encoding", kv.first); if(kv.second.uni) EQ(it->second.get_unicode_string(), wide(kv.second.u), "messages-wrong", "message %x", kv.first); else EQ(it->second.get_ansi_string(), kv.second.a, "messages-wrong", "message %x", kv.first); CHECK(kv.second.uni ? it->second.get_ansi_string().empty() : it->second.get_unicode_string().empty(), "messages-wrong", "message %x has both texts", kv.first); count("messages-read"); }
    mustRefuse("absent-answered", "an absent message table", [&] { rd.get_message_table_by_id_lang(lang, id ^ 1); }); mustRefuse("absent-answered", "an absent language", [&] { rd.get_message_table_by_id_lang(lang + 77, id); }); mustRefuse("absent-answered", "a table beyond the last", [&] { rd.get_message_table_by_id(id, static_cast<u32>(order.size())); });
    if(bl.size()) { // cut inside the last message, or its length or a block range made impossible
        Bytes d = t; const char* what = "cut short"; switch(r.below(4)) { case 0: d.resize(r.below(lastStart + 4)); break; case 1: d[lastStart] = static_cast<char>(r.below(4)); d[lastStart + 1] = 0; what = "with an entry shorter than its header"; break; case 2: { Bytes e; p32(e, bl[0].lo + 1); d.replace(4, 4, e); e.clear(); p32(e, bl[0].lo); d.replace(8, 4, e); what = "with a reversed range"; if(bl[0].lo == 0xFFFFFFFF) d.resize(4); break; } default: { Bytes e; p32(e, static_cast<u32>(r.chance(50) ? t.size() + 1 + r.below(100) : 0xFFFFFFFF - r.below(8))); d.replace(12, 4, e); what = "with a block outside"; } }
        resource_directory rt; pe_resource_manager mg(rt); mg.add_resource(d, pe_resource_viewer::resource_message_table, 1, 0); resource_message_list_reader x(mg); mustRefuse("malformed-accepted", std::string("a message table ") + what, [&] { x.get_message_table_by_id(1); }); count("malformed-refused"); }
    else count("empty-tables");
    { message_table_item i; CHECK(!i.is_unicode() && i.get_ansi_string().empty(), "item-wrong", "a new message item is not empty"); i.set_string(std::wstring(L"ab\0\0", 4)); CHECK(i.is_unicode() && i.get_unicode_string() == L"ab", "item-wrong", "wide text"); i.set_string(std::string("c\0", 2)); CHECK(!i.is_unicode() && i.get_ansi_string() == "c" && i.get_unicode_string().empty(), "item-wrong", "narrow text"); }
    nontrivial(fnv(t));
}
void run_case(Rng& r, u64 idx) { switch(idx % 3) { case 0: bitmaps(r); sample("bitmaps"); break; case 1: strings(r); sample("string blocks"); break; default: messages(r); sample("message table"); } }
