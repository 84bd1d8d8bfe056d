#include <stdarg.h>
#include "refpe.h"
#include <algorithm>
#include <dirent.h>
#include <stdlib.h>

const HFInfo HFI[NHF] = {
    {"Machine", 4, 2, 4, 2}, {"NumberOfSections", 6, 2, 6, 2}, {"TimeDateStamp", 8, 4, 8, 4}, {"PointerToSymbolTable", 12, 4, 12, 4},
    {"NumberOfSymbols", 16, 4, 16, 4}, {"SizeOfOptionalHeader", 20, 2, 20, 2}, {"Characteristics", 22, 2, 22, 2},
    {"Magic", 24, 2, 24, 2}, {"MajorLinkerVersion", 26, 1, 26, 1}, {"MinorLinkerVersion", 27, 1, 27, 1}, {"SizeOfCode", 28, 4, 28, 4},
    {"SizeOfInitializedData", 32, 4, 32, 4}, {"SizeOfUninitializedData", 36, 4, 36, 4}, {"AddressOfEntryPoint", 40, 4, 40, 4},
    {"BaseOfCode", 44, 4, 44, 4}, {"BaseOfData", 48, 4, 0, 0}, {"ImageBase", 52, 4, 48, 8}, {"SectionAlignment", 56, 4, 56, 4},
    {"FileAlignment", 60, 4, 60, 4}, {"MajorOperatingSystemVersion", 64, 2, 64, 2}, {"MinorOperatingSystemVersion", 66, 2, 66, 2},
    {"MajorImageVersion", 68, 2, 68, 2}, {"MinorImageVersion", 70, 2, 70, 2}, {"MajorSubsystemVersion", 72, 2, 72, 2},
    {"MinorSubsystemVersion", 74, 2, 74, 2}, {"Win32VersionValue", 76, 4, 76, 4}, {"SizeOfImage", 80, 4, 80, 4},
    {"SizeOfHeaders", 84, 4, 84, 4}, {"CheckSum", 88, 4, 88, 4}, {"Subsystem", 92, 2, 92, 2}, {"DllCharacteristics", 94, 2, 94, 2},
    {"SizeOfStackReserve", 96, 4, 96, 8}, {"SizeOfStackCommit", 100, 4, 104, 8}, {"SizeOfHeapReserve", 104, 4, 112, 8},
    {"SizeOfHeapCommit", 108, 4, 120, 8}, {"LoaderFlags", 112, 4, 128, 4}, {"NumberOfRvaAndSizes", 116, 4, 132, 4}
};

Bytes Img::headerBytes() const {
    Bytes b = dos; b.resize(64, '\0');
    b[0] = 'M'; b[1] = 'Z'; wrn(b, 60, lfanew(), 4);
    b += stub;
    size_t nt = b.size();
    b.resize(nt + 24 + optFixed(), '\0');
    memcpy(&b[nt], "PE\0\0", 4);
    for(int i = 0; i < NHF; ++i) { int o = pe64 ? HFI[i].off64 : HFI[i].off32, s = pe64 ? HFI[i].size64 : HFI[i].size32; if(s) wrn(b, nt + o, h[i], s); }
    for(u32 i = 0; i < ndirs(); ++i) { put32(b, dir[i][0]); put32(b, dir[i][1]); }
    b += optpad;
    for(const RSec& s : secs) {
        b += s.name; put32(b, s.vsize); put32(b, s.va); put32(b, s.rawsize); put32(b, s.rawptr);
        put32(b, s.relptr); put32(b, s.lineptr); put16(b, s.nrel); put16(b, s.nline); put32(b, s.chars);
    }
    b += hdrtail;
    if(b.size() < h[SIZEHDR]) b.resize(h[SIZEHDR], '\0');
    return b;
}
Bytes Img::file() const {
    Bytes b = headerBytes();
    for(const RSec& s : secs) {
        if(!s.rawsize) continue;
        u64 p = down(s.rawptr, h[FA]);
        if(b.size() < p + s.rawsize) b.resize(p + s.rawsize, '\0');
        b.replace(p, s.data.size(), s.data);
    }
    return b + overlay;
}
std::string Img::describe() const {
    std::string d = strf("%s SA=%llx FA=%llx base=%llx SizeOfImage=%llx SizeOfHeaders=%llx dirs=%llu stub=%zu optpad=%zu overlay=%zu secs:", pe64 ? "PE32+" : "PE32",
        (unsigned long long)h[SA], (unsigned long long)h[FA], (unsigned long long)h[IMGBASE], (unsigned long long)h[SIZEIMG], (unsigned long long)h[SIZEHDR], (unsigned long long)h[NRVA], stub.size(), optpad.size(), overlay.size());
    for(size_t i = 0; i < secs.size() && i < 8; ++i) d += strf(" [va=%x vs=%x raw=%x@%x]", secs[i].va, secs[i].vsize, secs[i].rawsize, secs[i].rawptr);
    return d;
}

void layout(Img& im, Rng& r, bool gaps) {
    u32 sa = static_cast<u32>(im.h[SA]), fa = static_cast<u32>(im.h[FA]);
    u32 hs = static_cast<u32>(up(im.sectabEnd() + im.hdrtail.size(), fa));
    if(gaps && r.chance(20)) hs += fa * static_cast<u32>(r.below(3));
    im.h[SIZEHDR] = hs;
    u32 va = static_cast<u32>(up(hs, sa));
    if(gaps && r.chance(20)) va += sa * static_cast<u32>(r.below(3));
    u32 p = hs; for(RSec& s : im.secs) { s.va = va; va += s.span(sa); }
    std::vector<size_t> order; for(size_t i = 0; i < im.secs.size(); ++i) order.push_back(i);
    if(gaps && im.secs.size() > 1 && r.chance(12)) r.shuffle(order); // sections may lie in the file in any order
    for(size_t i : order) {
        RSec& s = im.secs[i];
        if(s.rawsize) {
            if(gaps && r.chance(15)) p += fa * static_cast<u32>(1 + r.below(2));
            s.rawptr = p;
            p = static_cast<u32>(up(p + s.rawsize, fa));
        }
    }
    im.h[SIZEIMG] = im.secs.empty() ? up(hs, sa) : va;
    im.h[NSEC] = im.secs.size();
    im.h[OPTSIZE] = im.optFixed() + 8 * im.ndirs() + im.optpad.size();
}

Img genImg(Rng& r, const GenOpt& o) {
    Img im;
    im.pe64 = o.pe64 < 0 ? r.chance(50) : o.pe64 != 0;
    im.dos = r.bytes(64);
    switch(r.below(5)) {
    case 0: break;
    case 1: im.stub = r.bytes(4 * r.range(1, 4)); break;
    case 2: im.stub = r.bytes(64); break;
    case 3: im.stub = r.bytes(4 * r.range(1, 60)); break;
    default: im.stub = Bytes(64 + 4 * r.below(20), '\0'); break;
    }
    for(int i = 0; i < NHF; ++i) im.h[i] = r.edge64();
    im.h[MAGIC] = im.pe64 ? 0x20b : 0x10b;
    static const u32 sas[] = {0x1000, 0x1000, 0x1000, 0x2000, 0x4000, 0x10000, 0x200, 0x400, 0x20, 0x1000};
    u32 sa = sas[r.below(o.odd ? 10 : 6)], fa;
    if(sa < 0x200) fa = sa;
    else { std::vector<u32> c; for(u32 f = 0x200; f <= sa && f <= 0x2000; f *= 2) c.push_back(f); fa = r.chance(50) ? 0x200 : r.pick(c); }
    im.h[SA] = sa; im.h[FA] = fa;
    im.h[IMGBASE] = r.chance(60) ? 0x400000 : (im.pe64 ? r.edge64() : r.edge32()) & ~0xFFFFull;
    im.h[NRVA] = (o.fullDirs || r.chance(60)) ? 16 : r.below(17);
    if(o.fullDirs) im.h[NRVA] = 16;
    for(int i = 0; i < NHF; ++i) { int s = im.pe64 ? HFI[i].size64 : HFI[i].size32; if(s < 8) im.h[i] &= (1ull << (8 * s)) - 1; }
    im.h[LOADER] = 0; im.h[CHARS] &= ~1ull; // relocations not stripped unless a test wants it
    if(o.odd && r.chance(15)) im.optpad = r.bytes(4 * r.below(20));
    int n = static_cast<int>(r.range(o.minSecs, o.maxSecs));
    if(o.odd && o.maxSecs >= 6 && r.chance(2)) n = static_cast<int>(r.range(90, 96));
    for(int i = 0; i < n; ++i) {
        RSec s;
        s.name = r.ident(0, 8); s.name.resize(8, '\0');
        if(o.odd && r.chance(10)) s.name = r.bytes(8);
        s.chars = r.u32v(); s.relptr = r.edge32(); s.lineptr = r.edge32(); s.nrel = r.u32v(); s.nline = r.u32v();
        u32 want = static_cast<u32>(1 + r.below(n > 20 ? 40 : o.maxSecData));
        if(o.emptySecs && r.chance(20)) {
            s.rawsize = 0; s.vsize = want;
            if(o.odd) s.rawptr = r.chance(50) ? 0 : r.chance(50) ? r.u32v() & 0x7FFFFFFF : fa * static_cast<u32>(r.below(20));
        } else {
            switch(r.below(4)) {
            case 0: s.vsize = want; s.rawsize = static_cast<u32>(up(want, fa)); if(up(s.rawsize, fa) > up(s.vsize, sa)) s.vsize = s.rawsize; break;
            case 1: s.rawsize = static_cast<u32>(up(want, fa)); s.vsize = s.rawsize + static_cast<u32>(r.below(3 * sa)); break;
            case 2: s.rawsize = static_cast<u32>(up(want, fa)); s.vsize = s.rawsize; break;
            default: s.rawsize = o.odd ? want : static_cast<u32>(up(want, fa)); s.vsize = static_cast<u32>(up(s.rawsize, fa)) + static_cast<u32>(r.below(sa)); break;
            }
            if(o.zeroVsize && r.chance(10)) s.vsize = 0;
            s.data = r.chance(80) ? r.bytes(s.rawsize) : Bytes(s.rawsize, '\0');
            if(r.chance(30)) { size_t z = r.below(s.rawsize); std::fill(s.data.begin() + z, s.data.end(), '\0'); }
        }
        im.secs.push_back(s);
    }
    if(r.chance(30)) im.hdrtail = r.bytes(r.below(300));
    if(o.odd && r.chance(25)) im.overlay = r.bytes(1 + r.below(300));
    layout(im, r, o.odd);
    for(u32 i = 0; i < 16; ++i) im.dir[i][0] = im.dir[i][1] = 0;
    return im;
}

Parsed parse(const Bytes& f, bool strict) {
    Parsed p; p.lfanew = p.sectab = 0; Img& im = p.im;
    if(f.size() < 64) { p.err = "file shorter than a DOS header"; return p; }
    if(f[0] != 'M' || f[1] != 'Z') { p.err = "no MZ"; return p; }
    u32 l = rd32(f, 60); p.lfanew = l;
    im.dos = f.substr(0, 64);
    if(l & 3) { p.err = strf("e_lfanew %x not dword aligned", l); return p; }
    if(static_cast<u64>(l) + 26 > f.size()) { p.err = "e_lfanew beyond the file"; return p; }
    if(memcmp(f.data() + l, "PE\0\0", 4)) { p.err = "no PE signature"; return p; }
    u32 magic = rd16(f, l + 24);
    if(magic != 0x10b && magic != 0x20b) { p.err = "bad magic"; return p; }
    im.pe64 = magic == 0x20b;
    if(static_cast<u64>(l) + 24 + im.optFixed() > f.size()) { p.err = "truncated optional header"; return p; }
    for(int i = 0; i < NHF; ++i) { int o = im.pe64 ? HFI[i].off64 : HFI[i].off32, s = im.pe64 ? HFI[i].size64 : HFI[i].size32; im.h[i] = s ? rdn(f, l + o, s) : 0; }
    u32 nd = im.ndirs();
    if(strict && im.h[NRVA] > 16) { p.err = "more than 16 directories"; return p; }
    u64 de = static_cast<u64>(l) + 24 + im.optFixed() + 8 * nd;
    if(de > f.size()) { p.err = "truncated directories"; return p; }
    for(u32 i = 0; i < nd; ++i) { im.dir[i][0] = rd32(f, l + 24 + im.optFixed() + 8 * i); im.dir[i][1] = rd32(f, l + 28 + im.optFixed() + 8 * i); }
    u64 st = static_cast<u64>(l) + 24 + im.h[OPTSIZE]; p.sectab = static_cast<u32>(st);
    if(st < de) { if(strict) { p.err = strf("SizeOfOptionalHeader %llu does not cover the directories", (unsigned long long)im.h[OPTSIZE]); return p; } }
    else im.optpad = st <= f.size() ? f.substr(de, st - de) : Bytes();
    if(l >= 64) im.stub = f.substr(64, l - 64);
    if(st + 40 * im.h[NSEC] > f.size()) { p.err = "section table beyond the file"; return p; }
    for(u32 i = 0; i < im.h[NSEC]; ++i) {
        size_t o = st + 40 * i; RSec s;
        s.name = f.substr(o, 8); s.vsize = rd32(f, o + 8); s.va = rd32(f, o + 12); s.rawsize = rd32(f, o + 16); s.rawptr = rd32(f, o + 20);
        s.relptr = rd32(f, o + 24); s.lineptr = rd32(f, o + 28); s.nrel = rd16(f, o + 32); s.nline = rd16(f, o + 34); s.chars = rd32(f, o + 36);
        u64 q = down(s.rawptr, im.h[FA] ? im.h[FA] : 1);
        if(s.rawsize) {
            if(q + s.rawsize > f.size()) { p.err = strf("section %u data [%llx,+%x) beyond the file of %zx bytes", i, (unsigned long long)q, s.rawsize, f.size()); return p; }
            s.data = f.substr(q, s.rawsize);
        }
        im.secs.push_back(s);
    }
    if(!strict) return p;
    u64 sa = im.h[SA], fa = im.h[FA];
    if(!sa || (sa & (sa - 1)) || !fa || (fa & (fa - 1)) || fa > sa) { p.err = "bad alignments"; return p; }
    if(im.h[SIZEHDR] < st + 40 * im.secs.size()) { p.err = strf("SizeOfHeaders %llx does not cover the section table ending at %llx", (unsigned long long)im.h[SIZEHDR], (unsigned long long)(st + 40 * im.secs.size())); return p; }
    if(im.h[SIZEHDR] % fa) { p.err = strf("SizeOfHeaders %llx not file aligned", (unsigned long long)im.h[SIZEHDR]); return p; }
    u64 prev = im.h[SIZEHDR], va = 0;
    for(size_t i = 0; i < im.secs.size(); ++i) {
        const RSec& s = im.secs[i];
        if(s.va % sa) { p.err = strf("section %zu address %x not aligned", i, s.va); return p; }
        if(i == 0 ? im.h[SIZEHDR] > s.va : s.va != va) { p.err = strf("section %zu address %x not contiguous (expected %llx)", i, s.va, (unsigned long long)va); return p; }
        if(!s.span(sa)) { p.err = strf("section %zu has no size", i); return p; }
        va = static_cast<u64>(s.va) + s.span(sa);
        if(s.rawsize) {
            if(s.rawptr % fa) { p.err = strf("section %zu file offset %x not aligned", i, s.rawptr); return p; }
            if(s.rawptr < prev) { p.err = strf("section %zu file offset %x overlaps what precedes it (ends %llx)", i, s.rawptr, (unsigned long long)prev); return p; }
            prev = static_cast<u64>(s.rawptr) + s.rawsize;
        }
    }
    if(!im.secs.empty() && im.h[SIZEIMG] != va) { p.err = strf("SizeOfImage %llx but the last section ends at %llx", (unsigned long long)im.h[SIZEIMG], (unsigned long long)va); return p; }
    if(im.secs.empty() && !im.h[SIZEIMG]) { p.err = "SizeOfImage 0"; return p; }
    return p;
}

Bytes mapImage(const Bytes& f, const Parsed& p) {
    u64 sa = p.im.h[SA];
    u64 size = up(p.im.h[SIZEIMG], sa);
    if(size > (64u << 20)) return Bytes();
    Bytes m(size, '\0');
    u64 hs = std::min<u64>(std::min<u64>(p.im.h[SIZEHDR], f.size()), size);
    memcpy(&m[0], f.data(), hs);
    for(const RSec& s : p.im.secs) {
        u64 n = std::min<u64>(s.data.size(), s.span(static_cast<u32>(sa)));
        if(s.va + n <= size) memcpy(&m[s.va], s.data.data(), n);
    }
    return m;
}
bool dumpable(const Img& im) { if(im.h[SIZEIMG] >= (1u << 20)) return false; for(const RSec& s : im.secs) if(static_cast<u64>(s.rawptr) + s.rawsize > up(im.h[SIZEIMG], im.h[SA])) return false; return true; }
Bytes dumpImage(const Img& im, Rng& r) {
    Bytes b = im.headerBytes();
    u64 size = up(im.h[SIZEIMG], im.h[SA]);
    if(b.size() < size) b.resize(size, '\0');
    for(const RSec& s : im.secs) {
        u32 sp = s.span(static_cast<u32>(im.h[SA]));
        for(u32 i = 0; i < sp; ++i) b[s.va + i] = i < s.data.size() ? s.data[i] : (r.chance(3) ? static_cast<char>(r.u32v()) : '\0');
    }
    return b;
}
// One's-complement-style 16-bit word sum with folding, skipping the CheckSum field, plus the file length.
u32 refChecksum(const Bytes& f, u32 lfanew) {
    u32 sum = 0; u64 pos = static_cast<u64>(lfanew) + 88;
    for(size_t i = 0; i < f.size(); i += 2) {
        if(i == pos || i == pos + 2) continue;
        u32 w = static_cast<u8>(f[i]) | (i + 1 < f.size() ? static_cast<u32>(static_cast<u8>(f[i + 1])) << 8 : 0);
        sum += w; sum = (sum & 0xFFFF) + (sum >> 16);
    }
    return sum + static_cast<u32>(f.size());
}
const std::vector<std::pair<std::string, Bytes> >& realFiles() {
    static std::vector<std::pair<std::string, Bytes> > v; static bool done = false;
    if(done) return v;
    done = true;
    const char* root = getenv("VERIF_REPO"); std::string dir = std::string(root ? root : "/repo") + "/src/tests/pe_files";
    std::vector<std::string> names;
    if(DIR* d = opendir(dir.c_str())) { while(dirent* e = readdir(d)) if(e->d_name[0] != '.') names.push_back(e->d_name); closedir(d); }
    std::sort(names.begin(), names.end());
    for(const std::string& n : names) {
        FILE* f = fopen((dir + "/" + n).c_str(), "rb"); if(!f) continue;
        Bytes b; char buf[65536]; size_t k; while((k = fread(buf, 1, sizeof buf, f)) > 0) b.append(buf, k); fclose(f);
        v.push_back(std::make_pair(n, b));
    }
    return v;
}

Arena::Arena(Img& i, Rng& g) : im(i), r(g) { for(const RSec& s : im.secs) if(s.data.size()) fr.push_back(std::make_pair(static_cast<u64>(s.va), static_cast<u64>(s.va) + s.data.size())); }
bool Arena::take(size_t i, u32 size, u32 align, u32& out) {
    u64 lo = fr[i].first, hi = fr[i].second;
    u64 a = up(lo, align); if(a + size > hi) return false;
    u64 room = hi - size - a, p;
    switch(r.below(4)) {
    case 0: p = a; break;                                  // packed at the front
    case 1: p = down(hi - size, align); break;             // packed at the very end
    default: p = down(a + r.below(std::min<u64>(room, 64) + 1), align); if(p < a) p = a; break;
    }
    std::pair<u64, u64> tail(p + size, hi);
    fr[i].second = p;
    if(tail.first < tail.second) fr.push_back(tail);
    out = static_cast<u32>(p);
    return true;
}
u32 Arena::alloc(u32 size, u32 align) {
    if(fr.empty()) throw CaseSkip();
    size_t st = r.below(fr.size());
    // prefer large ranges so that many blobs fit
    if(r.chance(60)) { for(size_t i = 0; i < fr.size(); ++i) if(fr[i].second - fr[i].first > fr[st].second - fr[st].first) st = i; }
    for(size_t k = 0; k < fr.size(); ++k) { u32 o; if(take((st + k) % fr.size(), size, align, o)) return o; }
    throw CaseSkip();
}
u32 Arena::allocIn(const RSec& s, u32 size, u32 align) {
    std::vector<size_t> c; for(size_t i = 0; i < fr.size(); ++i) if(fr[i].first >= s.va && fr[i].second <= static_cast<u64>(s.va) + s.data.size()) c.push_back(i);
    r.shuffle(c);
    for(size_t i : c) { u32 o; if(take(i, size, align, o)) return o; }
    throw CaseSkip();
}
void Arena::withHeaders() { if(im.h[SIZEHDR] > im.sectabEnd()) fr.push_back(std::make_pair(static_cast<u64>(im.sectabEnd()), static_cast<u64>(im.h[SIZEHDR]))); }
void Arena::write(u32 rva, const Bytes& b) {
    if(b.empty()) return;
    if(rva >= im.sectabEnd() && rva + b.size() <= im.h[SIZEHDR]) { u32 o = rva - im.sectabEnd(); if(im.hdrtail.size() < o + b.size()) im.hdrtail.resize(o + b.size(), '\0'); im.hdrtail.replace(o, b.size(), b); return; }
    for(RSec& s : im.secs) if(rva >= s.va && static_cast<u64>(rva) + b.size() <= static_cast<u64>(s.va) + s.data.size()) { s.data.replace(rva - s.va, b.size(), b); return; }
    fprintf(stderr, "arena write outside\n"); abort();
}

void bad(const char* fmt, ...) { char buf[1000]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a); Bad b; b.why = buf; throw b; }
void trimZeros(Img& im, Rng& r) {
    for(RSec& s : im.secs) {
        if(s.rawsize < 2 || s.vsize < up(s.rawsize, im.h[FA])) continue;
        size_t n = s.data.size(); while(n > 1 && !s.data[n - 1]) --n;
        n += r.below(s.data.size() - n + 1);
        s.data.resize(n); s.rawsize = static_cast<u32>(n);
    }
}
