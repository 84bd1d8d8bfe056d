// Everything observable about an image or resource tree through the library, and hostile inputs.
#pragma once
#include "gens.h"
#include "pe_lib/pe_checksum.h"
#include "pe_lib/entropy.h"

// named observations; each is the text of the values, or the kind of refusal
typedef std::vector<std::pair<std::string, std::string> > Obs;
Obs observe(const pe_base& p);                       // headers, sections and every directory reader
Obs observeHeaders(const pe_base& p);                // headers and sections only
std::string observeTree(const resource_directory& d);
Obs observeTyped(const resource_directory& root);    // every high-level resource reader on everything present and a few absent things
std::string observeDebugRec(const debug_info& d);
Obs observeDefaults();                               // freshly constructed records
std::string diffObs(const Obs& a, const Obs& b);     // "" if equal
u64 hashObs(const Obs& o);
u64 workedObs(const Obs& o);                         // observations that are not refusals
void touch(const pe_base& p, Rng& r);                // address conversions, section lookups and data access with hostile arguments

// An image holding several directories at known places
struct Rich { Img im; std::vector<Region> regions; };
Rich richImage(Rng& r);
Bytes mutateImage(Rng& r, const Bytes& f, const std::vector<Region>& rvaRegions); // several hostile changes
u32 interesting(Rng& r, const Bytes& f);
std::string richDebug(Rng& r, Img& im, Arena& a, std::vector<Region>& reg);

// Payloads for typed resources (well formed)
Bytes icoFile(Rng& r, bool cursor);
Bytes bmpFile(Rng& r);
Bytes stringTable(Rng& r);
Bytes messageTable(Rng& r);
resource_directory typedTree(Rng& r);    // a tree with icons, cursors, bitmaps, strings, messages and version information

Bytes mutateBytes(Rng& r, const Bytes& f);
extern thread_local u64 g_refusals;                               // hash of which steps of touch and editTyped were refused, and why
void mutateTree(Rng& r, resource_directory& d, int level = 0);   // hostile changes to payloads and structure
void editTyped(Rng& r, resource_directory& root, u64 n);         // n typed edits with hostile arguments; refusals are accepted
std::string randomEdit(Rng& r, pe_base& p);                      // one accepted or refused editing operation of the ordinary kind; returns a description
