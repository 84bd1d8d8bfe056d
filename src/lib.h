// Helpers around the library under test (public interface only)
#pragma once
#include <sstream>
#include "h.h"
#include "refpe.h"
#include "pe_lib/pe_bliss.h"
#include "pe_lib/pe_bliss_resources.h"
#include "pe_lib/pe_rich_data.h"
using namespace pe_bliss;

inline pe_base openPe(const Bytes& f, bool mem = false, bool dbg = true) { std::istringstream s(f); return pe_factory::create_pe(s, mem, dbg); }
inline Bytes writePe(pe_base& p, bool strip = false, bool hdrs = true, bool bound = true) { std::ostringstream o; rebuild_pe(p, o, strip, hdrs, bound); return o.str(); }
// Runs f and requires the library's exception
template<class F> void mustRefuse(const char* key, const std::string& what, F f) {
    try { f(); }
    catch(const pe_exception&) { return; }
    catch(const std::exception& e) { fail(key, "%s: other exception instead of pe_exception: %s", what.c_str(), e.what()); }
    fail(key, "%s: was accepted", what.c_str());
}
template<class F> void mustWork(const char* key, const std::string& what, F f) {
    try { f(); }
    catch(const CaseFail&) { throw; }
    catch(const std::exception& e) { fail(key, "%s: threw %s", what.c_str(), e.what()); }
}
inline std::string diffAt(const Bytes& a, const Bytes& b) {
    size_t i = 0; while(i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    return strf("sizes %zu/%zu first difference at %zu: got %s expected %s", a.size(), b.size(), i, hexs(a.substr(std::min(i, a.size()), 8)).c_str(), hexs(b.substr(std::min(i, b.size()), 8)).c_str());
}
#define EQ(got, want, key, ...) do { auto g__ = (got); decltype(g__) w__ = static_cast<decltype(g__)>(want); if(!(g__ == w__)) fail(key, "%s: got %s, expected %s", strf(__VA_ARGS__).c_str(), show(g__).c_str(), show(w__).c_str()); } while(0)
inline std::string show(const std::string& s) { return "hex:" + hexs(s, 48) + strf("(%zu)", s.size()); }
inline std::string show(const std::wstring& s) { std::string r = "w:"; for(wchar_t c : s) r += strf("%x ", (unsigned)c); return r.substr(0, 400); }
template<class T> std::string show(T v) { return strf("0x%llx", static_cast<unsigned long long>(v)); }
// Compares everything observable about headers and sections with the model
void compareImage(const pe_base& p, const Img& im, const char* key);
bool headersFull(const pe_base& p);   // the headers (DOS stub, PE headers, section table, header-resident bound imports) may not fit before the first section
