// Different images can be processed concurrently without interference
#include "../sweep.h"
#include "pe_lib/pe_checksum.h"
#include "pe_lib/entropy.h"
#include <algorithm>
#include <thread>
#include <atomic>
extern const char* const PROPERTY = "C27";
extern const char* const RULE = "each case starts 2 to 6 threads (2 or more of them doing the same kinds of work), each opening, sweeping, editing, rebuilding, copying and writing its own images, resource trees and streams, with random pauses at allocations, under ThreadSanitizer; the concurrent run comes before any sequential one in its process for most cases (so first use is concurrent), then every thread's work is repeated alone and must give the same results; some cases give threads copies of one image made before they start; non-trivial: operations of different threads overlapped in time; distinct by the order of operation starts and ends";
u64 num_cases(bool t) { return t ? 12000 : 330; }
void setup() { alloc::track_leaks(true); }
static std::atomic<u32> g_ticket(0);
struct Ev { u32 t; u8 op; bool start; };
struct Job { u64 seed; std::vector<int> ops; const pe_base* shared; std::unique_ptr<pe_base> own; std::string result; std::vector<Ev> log; };
static std::string fp(const std::string& s) { return strf("%zu:%llx;", s.size(), static_cast<unsigned long long>(fnv(s))); }
enum { OPS = 12 };
static std::string op(int k, Rng& r, Job& j) {
    auto obs = [&](const pe_base& p) { return strf("%llx;", static_cast<unsigned long long>(hashObs(observe(p)))); };
    auto img = [&]() -> std::unique_ptr<pe_base> { if(j.own && r.chance(70)) return std::unique_ptr<pe_base>(new pe_base(*j.own)); Rich x = richImage(r); return std::unique_ptr<pe_base>(new pe_base(openPe(x.im.file(), r.chance(10), true))); };
    switch(k) {
    case 0: { auto p = img(); return obs(*p); }
    case 1: { auto p = img(); touch(*p, r); return fp(writePe(*p, r.chance(30), r.chance(80), r.chance(80))); }
    case 2: { auto p = img(); std::string t; for(u64 n = 1 + r.below(4); n; --n) t += randomEdit(r, *p) + ";"; return t + obs(*p); }
    case 3: { Rich x = richImage(r); Bytes f = x.im.file(); if(r.chance(50)) f = mutateImage(r, f, x.regions); try { pe_base p = openPe(f, r.chance(20), true); return obs(p); } catch(const pe_exception& e) { return e.what(); } }
    case 4: { Bytes f = r.bytes(400 + r.below(4000)); if(r.chance(60)) { Rich x = richImage(r); f = x.im.file(); } std::istringstream s(f); std::string t; try { t = strf("%x;", calculate_checksum(s)); } catch(const pe_exception& e) { t = e.what(); } std::istringstream s2(f); t += strf("%.17g;", entropy_calculator::calculate_entropy(s2)); return t + strf("%.17g;", entropy_calculator::calculate_entropy(f.data(), f.size())); }
    case 5: { resource_directory d = typedTree(r); std::string t = observeTree(d); t += strf("%llx;", static_cast<unsigned long long>(hashObs(observeTyped(d)))); return fp(t); }
    case 6: { resource_directory d = typedTree(r); try { editTyped(r, d, 2 + static_cast<int>(r.below(4))); } catch(const pe_exception&) {} resource_directory c(d); mutateTree(r, c); return fp(observeTree(d) + observeTree(c)) + strf("%llx;", static_cast<unsigned long long>(hashObs(observeTyped(c)))); }
    case 7: case 8: { std::unique_ptr<Kind> d = makeKind(static_cast<int>(r.below(KIND_COUNT))); pe_base p = r.chance(50) ? pe_base(pe_properties_64(), 0x1000) : pe_base(pe_properties_32(), 0x1000); Spot s = prepareRebuild(r, p, *d, 1, false); d->rebuild(p, p.get_image_sections()[s.sec], s.off, true, r.chance(50)); std::string e = d->lib(p); return "read back: " + e + ";" + fp(writePe(p)); }
    case 9: { auto p = img(); double e = 0; try { e = entropy_calculator::calculate_entropy(*p); } catch(const pe_exception&) { e = -1; } pe_base q(*p); q = *p; return strf("%.17g;", e) + obs(q); }
    case 10: { u64 n = 1 + r.below(40); std::u16string s = genName(r, n, n, true); std::wstring w = wide(s); std::string t; try { resource_directory d; pe_resource_manager m(d); m.add_resource(r.bytes(9), w, w, 0x409); t = observeTree(d); } catch(const pe_exception& e) { t = e.what(); } lang_string_values_map lm; translation_values_map tm; version_info_editor ed(lm, tm); try { ed.set_company_name(w); t += fp(std::string(reinterpret_cast<const char*>(ed.get_company_name().data()), ed.get_company_name().size() * sizeof(wchar_t))); } catch(const pe_exception&) {} return fp(t); }
    default: { Rich x = richImage(r); std::istringstream s(x.im.file()); try { pe_base p(pe_factory::create_pe(s)); p.set_checksum(r.u32v()); if(!p.get_image_sections().empty()) { section n; n.set_name("thr"); n.set_raw_data(r.bytes(100)); p.add_section(n); } return fp(writePe(p)); } catch(const pe_exception& e) { return e.what(); } }
    }
}
static void work(Job& j, bool threaded) {
    Rng r(j.seed); std::string out;
    for(int k : j.ops) {
        if(threaded) j.log.push_back(Ev{g_ticket.fetch_add(1, std::memory_order_relaxed), static_cast<u8>(k), true});
        try { out += op(k, r, j); } catch(const pe_exception& e) { out += std::string("refused ") + e.what() + ";"; } catch(const CaseSkip&) { out += "skip;"; } catch(const CaseFail& f) { out += "FAIL " + f.key + " " + f.msg + ";"; } catch(const std::exception& e) { out += std::string("other ") + e.what() + ";"; }
        if(threaded) j.log.push_back(Ev{g_ticket.fetch_add(1, std::memory_order_relaxed), static_cast<u8>(k), false});
        out += '\n';
    }
    j.result = out;
}
void run_case(Rng& r, u64) {
    u64 n = 2 + r.below(5); std::vector<Job> jobs(n); bool same = r.chance(50); std::vector<int> ops; for(u64 k = 4 + r.below(5); k; --k) ops.push_back(static_cast<int>(r.below(OPS))); if(r.chance(40)) { ops.clear(); for(int k = 0; k < OPS; ++k) ops.push_back(k); }
    std::unique_ptr<pe_base> source; if(r.chance(25)) { Rich x = richImage(r); source.reset(new pe_base(openPe(x.im.file()))); }
    for(Job& j : jobs) { j.seed = r.next(); j.shared = 0; j.ops = ops; if(!same) r.shuffle(j.ops); if(source) j.own.reset(new pe_base(*source)); }
    g_ticket = 0; std::vector<std::thread> th; u64 js = r.next() | 1; std::atomic<bool> go(false);
    for(size_t i = 0; i < jobs.size(); ++i) th.emplace_back([&, i] { g_mute = true; while(!go.load(std::memory_order_relaxed)) sched_yield(); alloc::jitter = js * (2 * i + 1); work(jobs[i], true); alloc::jitter = 0; });
    go.store(true, std::memory_order_relaxed); for(auto& t : th) t.join();
    // what overlapped
    std::vector<std::pair<u32, std::pair<size_t, Ev>>> all; for(size_t i = 0; i < n; ++i) for(const Ev& e : jobs[i].log) all.push_back(std::make_pair(e.t, std::make_pair(i, e)));
    std::sort(all.begin(), all.end(), [](const std::pair<u32, std::pair<size_t, Ev>>& a, const std::pair<u32, std::pair<size_t, Ev>>& b) { return a.first < b.first; }); u64 h = 5; std::vector<int> run(n, -1); u64 overlaps = 0;
    for(auto& x : all) { u8 t[3] = {static_cast<u8>(x.second.first), x.second.second.op, x.second.second.start}; h = fnv(t, 3, h); if(x.second.second.start) { for(size_t i = 0; i < n; ++i) if(i != x.second.first && run[i] >= 0) ++overlaps; run[x.second.first] = x.second.second.op; } else run[x.second.first] = -1; }
    count("threads", n); count("operations", all.size() / 2); count("overlapping-operations", overlaps); if(overlaps) nontrivial(h);
    // the same work, one after the other
    for(size_t i = 0; i < n; ++i) {
        Job q; q.seed = jobs[i].seed; q.ops = jobs[i].ops; q.shared = 0; if(source) q.own.reset(new pe_base(*source));
        g_mute = true; work(q, false); g_mute = false;
        CHECK(q.result.find("FAIL") == std::string::npos, "harness-work", "%s", q.result.substr(q.result.find("FAIL"), 500).c_str());
        CHECK(q.result == jobs[i].result, "result-differs", "thread %zu of %zu: %s", i, static_cast<size_t>(n), diffAt(jobs[i].result, q.result).c_str());
        count("results-compared", q.ops.size());
    }
    sample(strf("%zu threads, operations %s, first results: %s", static_cast<size_t>(n), [&] { std::string t; for(int k : ops) t += strf("%d ", k); return t; }().c_str(), jobs[0].result.substr(0, 300).c_str()));
}
