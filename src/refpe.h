// Independent model of the PE/PE+ format: generation, writing, strict parsing and loader mapping.
// Nothing here uses the library under test.
#pragma once
#include "h.h"
#include <map>

enum HF { MACHINE, NSEC, TS, SYMPTR, NSYM, OPTSIZE, CHARS, MAGIC, LINKMAJ, LINKMIN, SZCODE, SZIDATA, SZUDATA, EP, BASECODE, BASEDATA,
    IMGBASE, SA, FA, OSMAJ, OSMIN, IMGMAJ, IMGMIN, SUBMAJ, SUBMIN, WIN32VER, SIZEIMG, SIZEHDR, CHK, SUBSYS, DLLCH,
    STKRES, STKCOM, HEAPRES, HEAPCOM, LOADER, NRVA, NHF };
struct HFInfo { const char* name; int off32, size32, off64, size64; };   // offsets from the PE signature
extern const HFInfo HFI[NHF];

enum Dir { D_EXPORT, D_IMPORT, D_RESOURCE, D_EXCEPTION, D_SECURITY, D_RELOC, D_DEBUG, D_ARCH, D_GLOBALPTR, D_TLS, D_CONFIG, D_BOUND, D_IAT, D_DELAY, D_COM, D_RES15 };

inline u32 rd16(const Bytes& b, size_t o) { u16 v; memcpy(&v, b.data() + o, 2); return v; }
inline u32 rd32(const Bytes& b, size_t o) { u32 v; memcpy(&v, b.data() + o, 4); return v; }
inline u64 rd64(const Bytes& b, size_t o) { u64 v; memcpy(&v, b.data() + o, 8); return v; }
inline u64 rdn(const Bytes& b, size_t o, int n) { u64 v = 0; memcpy(&v, b.data() + o, n); return v; }
inline void wrn(Bytes& b, size_t o, u64 v, int n) { memcpy(&b[o], &v, n); }
inline void put16(Bytes& b, u64 v) { b.append(reinterpret_cast<const char*>(&v), 2); }
inline void put32(Bytes& b, u64 v) { b.append(reinterpret_cast<const char*>(&v), 4); }
inline void put64(Bytes& b, u64 v) { b.append(reinterpret_cast<const char*>(&v), 8); }
inline u64 up(u64 x, u64 a) { return a ? (x + a - 1) / a * a : x; }
inline u64 down(u64 x, u64 a) { return a ? x / a * a : x; }

struct RSec {
    Bytes name;         // 8 raw bytes
    u32 vsize, va, rawsize, rawptr, relptr, lineptr, chars; u16 nrel, nline;
    Bytes data;         // rawsize bytes
    RSec() : name(8, '\0'), vsize(0), va(0), rawsize(0), rawptr(0), relptr(0), lineptr(0), chars(0), nrel(0), nline(0) {}
    u32 span(u32 sa) const { return static_cast<u32>(up(vsize ? vsize : rawsize, sa)); }
    std::string cname() const { return std::string(name.c_str(), strnlen(name.data(), 8)); }
};

struct Img {
    bool pe64;
    Bytes dos;          // 64 bytes; e_magic / e_lfanew are set on writing
    Bytes stub;         // bytes between DOS header and PE signature (multiple of 4)
    u64 h[NHF];
    u32 dir[16][2];
    Bytes optpad;       // bytes between the last data directory and the section table
    std::vector<RSec> secs;
    Bytes hdrtail;      // bytes after the section table, inside the header area
    Bytes overlay;
    Img() : pe64(false) { memset(h, 0, sizeof h); memset(dir, 0, sizeof dir); }
    u32 lfanew() const { return static_cast<u32>(64 + stub.size()); }
    u32 ndirs() const { return static_cast<u32>(h[NRVA] > 16 ? 16 : h[NRVA]); }
    u32 optFixed() const { return pe64 ? 112 : 96; }
    u32 sectabEnd() const { return static_cast<u32>(lfanew() + 24 + optFixed() + 8 * ndirs() + optpad.size() + 40 * secs.size()); }
    u64 base() const { return h[IMGBASE]; }
    const RSec* secAt(u64 rva) const { for(const RSec& s : secs) if(rva >= s.va && rva < static_cast<u64>(s.va) + s.span(static_cast<u32>(h[SA]))) return &s; return 0; }
    Bytes headerBytes() const;   // everything before SizeOfHeaders as the file holds it
    Bytes file() const;
    std::string describe() const;
};

struct GenOpt {
    int pe64;            // -1 random
    int minSecs, maxSecs;
    bool emptySecs, odd; // allow zero-raw sections; allow unusual (stale pointers, raw > virtual, gaps, unaligned last)
    u32 maxSecData;
    bool fullDirs;       // 16 directories
    bool zeroVsize;
    GenOpt() : pe64(-1), minSecs(0), maxSecs(6), emptySecs(true), odd(true), maxSecData(3000), fullDirs(false), zeroVsize(true) {}
};
Img genImg(Rng& r, const GenOpt& o);
// (Re)computes addresses, file offsets, SizeOfImage, SizeOfHeaders for the sections' sizes
void layout(Img& im, Rng& r, bool gaps);

struct Parsed { Img im; u32 lfanew; u32 sectab; std::string err; bool ok() const { return err.empty(); } };
Parsed parse(const Bytes& f, bool strict);
// Memory after loading: headers then sections, SizeOfImage bytes
Bytes mapImage(const Bytes& file, const Parsed& p);
// As an in-memory dump of the image (file offset == address)
Bytes dumpImage(const Img& im, Rng& r);
bool dumpable(const Img& im);   // file offsets of all sections also exist in the dump (the library insists on that)
u32 refChecksum(const Bytes& f, u32 lfanew);

// Real files shipped with the repository's tests
const std::vector<std::pair<std::string, Bytes> >& realFiles();

// Places blobs inside the raw data of the sections of an image
struct Arena {
    Img& im; Rng& r; std::vector<std::pair<u64, u64> > fr; // free [lo,hi) rva ranges
    Arena(Img& i, Rng& g);
    void withHeaders();                   // also the header area after the section table
    u32 alloc(u32 size, u32 align);       // throws CaseSkip if no room
    u32 allocIn(const RSec& s, u32 size, u32 align);
    void write(u32 rva, const Bytes& b);
    u32 place(const Bytes& b, u32 align) { u32 p = alloc(static_cast<u32>(b.size()), align); write(p, b); return p; }
private:
    bool take(size_t i, u32 size, u32 align, u32& out);
};

// Byte view of a loaded image; reads outside throw Bad
struct Bad { std::string why; };
[[noreturn]] void bad(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
struct Mem {
    Bytes m;
    explicit Mem(const Bytes& mapped) : m(mapped) {}
    const char* at(u64 rva, u64 n) const { if(rva > m.size() || n > m.size() - rva) bad("address %llx+%llx outside the image", (unsigned long long)rva, (unsigned long long)n); return m.data() + rva; }
    u8 r8(u64 a) const { return static_cast<u8>(*at(a, 1)); }
    u16 r16(u64 a) const { u16 v; memcpy(&v, at(a, 2), 2); return v; }
    u32 r32(u64 a) const { u32 v; memcpy(&v, at(a, 4), 4); return v; }
    u64 r64(u64 a) const { u64 v; memcpy(&v, at(a, 8), 8); return v; }
    u64 rw(u64 a, bool w64) const { return w64 ? r64(a) : r32(a); }
    Bytes bytes(u64 a, u64 n) const { return Bytes(at(a, n), n); }
    std::string str(u64 a) const { std::string s; for(u64 i = 0;; ++i) { char c = static_cast<char>(r8(a + i)); if(!c) return s; s += c; if(i > (1u << 22)) bad("unterminated string"); } }
};
// Removes some trailing zero bytes from the raw data of sections whose mapped size does not depend on it
void trimZeros(Img& im, Rng& r);
