// Models of the data directories: random contents, an independent encoder and decoder for each,
// and the conversion to and from the library's structures.
#pragma once
#include "lib.h"
#include <memory>
#include <functional>

struct Region { u64 lo, hi; u64 size() const { return hi > lo ? hi - lo : 0; } };
struct Ctx {
    bool pe64; u64 base;
    std::vector<Region> targets;   // mapped addresses that may be referred to (never inside the directory's own space)
    std::vector<Region> aux;       // section raw data that may be overwritten (TLS data, callbacks)
    u32 target(Rng& r) const;      // some non-zero address
    bool auxTake(Rng& r, u32 size, u32 align, u32& out);
};
struct Kind {
    int dir; const char* name; bool pe64; u64 base; bool rebuilt = false;   // rebuilt: the stored form is the library's and must also obey the rules for writers
    Kind(int d, const char* n) : dir(d), name(n), pe64(false), base(0) {}
    virtual ~Kind() {}
    virtual void gen(Rng& r, Ctx& c, int size) = 0;                 // size 0 small .. 2 large
    virtual image_directory rebuild(pe_base& p, section& s, u32 off, bool save, bool strip) = 0;
    virtual void prep(pe_base&) {}                                   // stores what the rebuild is told not to write itself
    virtual void plant(Img& im, Arena& a, Rng& r) = 0;              // independent encoding into an image
    virtual std::string decode(const Mem& m, u32 rva, u32 size) = 0; // difference between the stored directory and the model, or ""
    virtual std::string lib(const pe_base& p) = 0;                  // difference between the library's reading and the model, or ""
    virtual u64 need() const = 0;                                   // bytes used from the aligned offset
    virtual u32 align() const { return 4; }
    virtual std::vector<std::pair<u32, u32> > extra() const { return {}; } // further (address, size) ranges it writes
    virtual bool empty() const { return false; }
    virtual std::string text() const = 0;
};

// ---- imports
struct MFunc { bool named; std::string name; u16 hint, ord; u64 iat; bool junk; MFunc() : named(false), hint(0), ord(0), iat(0), junk(false) {} };   // junk: reserved bits of an ordinal are set
struct MLib { std::string name; u32 ts, iat, oft; std::vector<MFunc> f; };
typedef std::vector<MLib> MImports;
MImports genImports(Rng& r, bool pe64, int libs, int funcs);
u32 encodeImports(Img& im, Arena& a, Rng& r, MImports& l, bool allowNoOft);  // returns directory address, sets table addresses
MImports decodeImports(const Mem& m, u32 rva, bool pe64);
imported_functions_list toLib(const MImports& l);
MImports fromLib(const imported_functions_list& l);
// what: 1 names and functions, 2 iat values, 4 table addresses, 8 timestamps
std::string diffImports(const MImports& got, const MImports& want, int what);
struct KImports : Kind {
    MImports l; import_rebuilder_settings st; bool noOft, foreign;
    KImports() : Kind(D_IMPORT, "imports"), noOft(false), foreign(false) {}
    void gen(Rng&, Ctx&, int) override; image_directory rebuild(pe_base&, section&, u32, bool, bool) override; void plant(Img&, Arena&, Rng&) override;
    std::string decode(const Mem&, u32, u32) override; std::string lib(const pe_base&) override; u64 need() const override; u32 align() const override { return 1; } bool empty() const override { return l.empty(); } std::string text() const override;
};
// ---- exports
struct MExp { u32 ord; u32 rva; bool named; std::string name; bool fwd; std::string fname; };
struct KExports : Kind {
    u32 chars, ts; u16 maj, min; std::string dll; u32 obase; std::vector<MExp> f; bool dup;
    KExports() : Kind(D_EXPORT, "exports"), chars(0), ts(0), maj(0), min(0), obase(1), dup(false) {}
    export_info info() const; exported_functions_list list() const;
    void gen(Rng&, Ctx&, int) override; image_directory rebuild(pe_base&, section&, u32, bool, bool) override; void plant(Img&, Arena&, Rng&) override;
    std::string decode(const Mem&, u32, u32) override; std::string lib(const pe_base&) override; u64 need() const override; bool empty() const override { return f.empty(); } std::string text() const override;
};
// ---- relocations
struct MRel { u32 page; std::vector<u16> e; };
struct KRelocs : Kind {
    std::vector<MRel> t;
    KRelocs() : Kind(D_RELOC, "relocations") {}
    relocation_table_list list() const;
    void gen(Rng&, Ctx&, int) override; image_directory rebuild(pe_base&, section&, u32, bool, bool) override; void plant(Img&, Arena&, Rng&) override;
    std::string decode(const Mem&, u32, u32) override; std::string lib(const pe_base&) override; u64 need() const override; bool empty() const override { return t.empty(); } std::string text() const override;
};
// ---- TLS
struct KTls : Kind {
    u32 start, end, index, cbs, zero, chars; Bytes raw; std::vector<u32> cb; bool wcb, wdata; tls_data_expand_type exp;
    Bytes stored;      // template bytes expected to be readable
    KTls() : Kind(D_TLS, "tls"), start(0), end(0), index(0), cbs(0), zero(0), chars(0), wcb(true), wdata(true), exp(tls_data_expand_raw) {}
    tls_info info() const; void prep(pe_base&) override;
    void gen(Rng&, Ctx&, int) override; image_directory rebuild(pe_base&, section&, u32, bool, bool) override; void plant(Img&, Arena&, Rng&) override;
    std::string decode(const Mem&, u32, u32) override; std::string lib(const pe_base&) override; u64 need() const override; u32 align() const override { return pe64 ? 8 : 4; }
    std::vector<std::pair<u32, u32> > extra() const override; std::string text() const override;
    std::string cmp(const tls_info& i) const;
};
// ---- load configuration
struct KConfig : Kind {
    u32 ts, gfc, gfs, cst, phf; u16 maj, min, csd; u64 dfb, dtf, lpt, mas, vmt, pam, edit, cookie, sht; std::vector<u32> seh, lock; bool wseh, wlock;
    bool hasLock;      // a lock prefix table is (or will be) referred to
    KConfig() : Kind(D_CONFIG, "load config"), ts(0), gfc(0), gfs(0), cst(0), phf(0), maj(0), min(0), csd(0), dfb(0), dtf(0), lpt(0), mas(0), vmt(0), pam(0), edit(0), cookie(0), sht(0), wseh(true), wlock(true), hasLock(false) {}
    image_config_info info() const; void prep(pe_base&) override;
    void gen(Rng&, Ctx&, int) override; image_directory rebuild(pe_base&, section&, u32, bool, bool) override; void plant(Img&, Arena&, Rng&) override;
    std::string decode(const Mem&, u32, u32) override; std::string lib(const pe_base&) override; u64 need() const override; u32 align() const override { return pe64 ? 8 : 4; } std::string text() const override;
    std::string cmp(const image_config_info& i, bool sorted) const;
};
// ---- bound imports
struct MBound { std::string name; u32 ts; std::vector<std::pair<std::string, u32> > refs; };
struct KBound : Kind {
    std::vector<MBound> l;
    KBound() : Kind(D_BOUND, "bound imports") {}
    bound_import_module_list list() const;
    Bytes encode(Rng& r) const;    // self-contained directory bytes
    void gen(Rng&, Ctx&, int) override; image_directory rebuild(pe_base&, section&, u32, bool, bool) override; void plant(Img&, Arena&, Rng&) override;
    std::string decode(const Mem&, u32, u32) override; std::string lib(const pe_base&) override; u64 need() const override; bool empty() const override { return l.empty(); } std::string text() const override;
};
// ---- resources
struct MEnt;
struct MDir { u32 chars, ts; u16 maj, min; std::vector<MEnt> e; MDir() : chars(0), ts(0), maj(0), min(0) {} };
struct MEnt { bool named; std::u16string name; u32 id; bool leaf; Bytes data; u32 cp; MDir sub; MEnt() : named(false), id(0), leaf(true), cp(0) {} };
std::wstring wide(const std::u16string& s);
std::u16string narrow(const std::wstring& s);
std::u16string genName(Rng& r, size_t minlen, size_t maxlen, bool odd);
MDir genResDir(Rng& r, int depth, int breadth, u32 maxData);
void genDirAttrs(Rng& r, MDir& d);
resource_directory toLib(const MDir& d);
MDir fromLib(const resource_directory& d);      // also checks the entry counters
void sortDir(MDir& d);
std::string diffDir(const MDir& got, const MDir& want, bool counters = true, const std::string& path = "");
MDir decodeResources(const Mem& m, u32 rva, bool requireOrder);
void plantResources(Img& im, Arena& a, Rng& r, const MDir& d);
struct KResources : Kind {
    MDir d;
    KResources() : Kind(D_RESOURCE, "resources") {}
    void gen(Rng&, Ctx&, int) override; image_directory rebuild(pe_base&, section&, u32, bool, bool) override; void plant(Img&, Arena&, Rng&) override;
    std::string decode(const Mem&, u32, u32) override; std::string lib(const pe_base&) override; u64 need() const override; std::string text() const override;
};

enum { KIND_COUNT = 7 };
std::unique_ptr<Kind> makeKind(int k);

// A place for a directory in an image held by the library
struct Spot { size_t sec; u32 off; bool last, fresh; };
Spot pickSpot(Rng& r, pe_base& p, u64 need, u32 align, bool allowShort);
Ctx ctxFor(const pe_base& p, const Spot* avoid, u64 need);
// Prepares model k for a rebuild of p at a random place: generates contents and picks the place
Spot prepareRebuild(Rng& r, pe_base& p, Kind& k, int size, bool allowShort);
void saneBase(Img& im, Rng& r);   // image base such that every address of the image fits
// Scenarios shared by the directory checks
void planted(Rng& r, Img& im, Kind& k, int size, bool headers);      // fills im's sections with the directory and fixes im up for writing
void readScenario(Rng& r, Kind& k, int size, bool headers);          // planted directory read by the library
pe_base subject(Rng& r, bool roomy);                                 // an image to edit: generated, created, or a shipped one
u64 writeScenario(Rng& r, Kind& k, int size);                        // library-written directory read back independently and by the library
void checkStored(pe_base& p, Kind& k, const char* when, bool strip = false); // writes p, decodes k from the file, reopens and reads it
