// Bounded explicit-state exploration runtime shared by every harness.
//
// A harness enumerates (completely, in a fixed order) the cases of its bounded
// space; every case is one execution of the real strf code that is compared,
// step by step, with a reference model written independently of strf.
//
//   for (...) { if (!mc::take()) continue;  ... mc::step(); ... mc::state(h); ... }
//
// mc::take() gives each case a stable number, and hands it to exactly one
// shard, so "shard k of n" is deterministic and a failing case can be replayed
// with "--only <number>".
#ifndef MC_HPP
#define MC_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cstdarg>
#include <string>
#include <string_view>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>

#ifndef MC_AS_GB      // address space of one shard, in gigabytes
#  define MC_AS_GB 6
#endif
namespace mc {

struct Shared {            // lives in a file mapping: survives a crash of the harness
    volatile std::uint64_t case_no;
    char note[4000];
};
struct Global {
    int shard = 0, nshards = 1;
    bool thorough = false;
    bool replay = false;
    std::uint64_t only = 0;
    std::uint64_t next = 0;      // number of the next case
    std::uint64_t cur = 0;       // number of the current case
    std::uint64_t taken = 0;     // cases executed by this shard
    std::uint64_t steps = 0;     // model/implementation steps compared
    std::uint64_t failures = 0;
    std::vector<std::string> known_keys;
    std::vector<std::uint8_t> sketch;
    std::vector<std::string> samples;
    std::uint64_t sample_at = 1;
    std::string out;
    FILE* outf = nullptr;
    Shared* sh = nullptr;
    std::vector<std::string> counters_n; std::vector<std::uint64_t> counters_v;
    std::uint64_t seen_case = ~std::uint64_t(0); int seen_ticks = 0;
    alignas(4096) char altstack[65536];
};
inline Global& g() { static Global* x = new Global; return *x; }
constexpr unsigned sketch_bits = 27;
constexpr std::uint64_t max_failures = 25;

inline std::string json_escape(std::string_view s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}
inline bool thorough() { return g().thorough; }
inline bool replay() { return g().replay; }

// Is this next case ours?
inline bool take() {
    auto& G = g();
    std::uint64_t n = G.next++;
    if (G.replay) { if (n != G.only) return false; }
    else if (G.nshards > 1 && n % (unsigned)G.nshards != (unsigned)G.shard) return false;
    G.cur = n; G.sh->case_no = n; ++G.taken;
    return true;
}
inline void step(std::uint64_t n = 1) { g().steps += n; }
inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 29;
    return h;
}
inline std::uint64_t hash(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
    auto* b = static_cast<const unsigned char*>(p);
    std::size_t i = 0;
    for (; i + 8 <= n; i += 8) { std::uint64_t v; std::memcpy(&v, b + i, 8); h = mix(h, v); }
    std::uint64_t v = n; for (; i < n; ++i) v = (v << 8) | b[i];
    return mix(h, v);
}
// Records a model state (input/configuration + observable result).  The count reported is the
// number of distinct sketch cells hit: a lower bound of the number of distinct states.
inline void state(std::uint64_t h) {
    h = mix(h, 0x51ed270b);
    std::uint64_t b = h & ((std::uint64_t(1) << sketch_bits) - 1);
    g().sketch[b >> 3] |= std::uint8_t(1u << (b & 7));
}
inline void count(const char* name, std::uint64_t n = 1) {
    auto& G = g();
    for (std::size_t i = 0; i < G.counters_n.size(); ++i)
        if (G.counters_n[i] == name) { G.counters_v[i] += n; return; }
    G.counters_n.push_back(name); G.counters_v.push_back(n);
}
inline std::string vfmt(const char* f, va_list ap) {
    char buf[6000]; std::vsnprintf(buf, sizeof buf, f, ap); return buf;
}
__attribute__((format(printf, 1, 2)))
inline std::string sfmt(const char* f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); return s; }

// Keeps a few of the executed cases, written out, for the evidence file.
inline bool want_sample() { auto& G = g(); if (G.taken >= G.sample_at && G.samples.size() < 12) { G.sample_at = G.sample_at * 7 + 1; return true; } return false; }
inline void sample(std::string s) { if (s.size() > 400) s.resize(400); g().samples.push_back(std::move(s)); }

// Text identifying the current case, for crashes; cheap enough to use in slow harnesses only.
__attribute__((format(printf, 1, 2)))
inline void note(const char* f, ...) { va_list ap; va_start(ap, f); std::vsnprintf(g().sh->note, sizeof g().sh->note, f, ap); va_end(ap); }

[[noreturn]] inline void finish(int code);

// key: stable identification of the failing input (for the known-findings file)
inline void fail(std::string key, std::string text) {
    auto& G = g();
    ++G.failures;
    if (G.replay) { std::printf("FAIL case=%llu key=%s\n%s\n", (unsigned long long)G.cur, key.c_str(), text.c_str()); std::fflush(stdout); return; }
    if (text.size() > 3000) text.resize(3000);
    std::fprintf(G.outf, "{\"t\":\"fail\",\"case\":%llu,\"key\":\"%s\",\"text\":\"%s\"}\n",
        (unsigned long long)G.cur, json_escape(key).c_str(), json_escape(text).c_str());
    std::fflush(G.outf);
    if (G.failures >= max_failures) finish(0);
}
__attribute__((format(printf, 2, 3)))
inline void failf(const std::string& key, const char* f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); fail(key, s); }

// A violation that the known-findings file lists under this key: recorded once, exploration goes on.
inline void known(const char* key, const std::string& text) {
    auto& G = g();
    for (auto& k : G.known_keys) if (k == key) return;
    G.known_keys.push_back(key);
    if (G.replay) { std::printf("KNOWN case=%llu key=%s\n%s\n", (unsigned long long)G.cur, key, text.c_str()); return; }
    std::fprintf(G.outf, "{\"t\":\"fail\",\"case\":%llu,\"key\":\"%s\",\"text\":\"%s\"}\n", (unsigned long long)G.cur, json_escape(key).c_str(), json_escape(text).c_str());
    std::fflush(G.outf);
}
inline void finish(int code) {
    auto& G = g();
    if (G.replay) { std::printf("replayed case %llu: %s\n", (unsigned long long)G.only, G.taken == 0 ? "no such case" : G.failures ? "VIOLATED" : "holds"); std::exit(G.failures ? 1 : 0); }
    std::uint64_t set = 0; for (auto b : G.sketch) set += (unsigned)__builtin_popcount(b);
    std::fprintf(G.outf, "{\"t\":\"end\",\"cases\":%llu,\"space\":%llu,\"steps\":%llu,\"states\":%llu,\"failures\":%llu,\"samples\":[",
        (unsigned long long)G.taken, (unsigned long long)G.next, (unsigned long long)G.steps, (unsigned long long)set, (unsigned long long)G.failures);
    for (std::size_t i = 0; i < G.samples.size(); ++i) std::fprintf(G.outf, "%s\"%s\"", i ? "," : "", json_escape(G.samples[i]).c_str());
    std::fprintf(G.outf, "],\"counters\":{");
    for (std::size_t i = 0; i < G.counters_n.size(); ++i) std::fprintf(G.outf, "%s\"%s\":%llu", i ? "," : "", G.counters_n[i].c_str(), (unsigned long long)G.counters_v[i]);
    std::fprintf(G.outf, "}}\n");
    std::fclose(G.outf);
    FILE* f = std::fopen((G.out + ".sk").c_str(), "wb");
    if (f) { std::fwrite(G.sketch.data(), 1, G.sketch.size(), f); std::fclose(f); }
    std::_Exit(code);
}
inline void on_crash(int sig) {
    auto& G = g();
    char b[200];
    int n = std::snprintf(b, sizeof b, "{\"t\":\"crash\",\"case\":%llu,\"sig\":%d}\n", (unsigned long long)G.cur, sig);
    if (G.outf) { ssize_t r = ::write(fileno(G.outf), b, (size_t)n); (void)r; }
    else { ssize_t r = ::write(1, b, (size_t)n); (void)r; }
    _exit(42);
}
// No single case may use 30 s of CPU time: strf always terminates.
inline void on_tick(int) {
    auto& G = g();
    if (G.seen_case == G.sh->case_no) {
        if (++G.seen_ticks >= 6) {
            char b[200];
            int n = std::snprintf(b, sizeof b, "{\"t\":\"hang\",\"case\":%llu}\n", (unsigned long long)G.cur);
            if (G.outf) { ssize_t r = ::write(fileno(G.outf), b, (size_t)n); (void)r; }
            _exit(43);
        }
    } else { G.seen_case = G.sh->case_no; G.seen_ticks = 0; }
}
// call it when one case is known to be long, to show progress
inline void alive() { g().seen_ticks = 0; }

inline void init(int argc, char** argv) {
    auto& G = g();
    std::string cur;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--shard") G.shard = std::atoi(val());
        else if (a == "--nshards") G.nshards = std::atoi(val());
        else if (a == "--tier") G.thorough = std::string(val()) == "thorough";
        else if (a == "--out") G.out = val();
        else if (a == "--only") { G.replay = true; G.only = std::strtoull(val(), nullptr, 10); }
    }
    G.sketch.resize((std::size_t(1) << sketch_bits) >> 3);
    if (!G.replay) {
        G.outf = std::fopen(G.out.c_str(), "w");
        if (!G.outf) { std::perror("out"); std::exit(2); }
    }
    if (!G.out.empty()) {
        std::string p = G.out + ".cur";
        int fd = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ::ftruncate(fd, sizeof(Shared)) != 0) { std::perror("cur"); std::exit(2); }
        G.sh = static_cast<Shared*>(::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        ::close(fd);
    } else G.sh = new Shared();
    stack_t ss{}; ss.ss_sp = G.altstack; ss.ss_size = sizeof G.altstack; ::sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) if (!G.replay) ::sigaction(s, &sa, nullptr);
    struct sigaction st{}; st.sa_handler = on_tick; st.sa_flags = SA_RESTART;
    if (!G.replay) {
        ::sigaction(SIGVTALRM, &st, nullptr);
        struct itimerval tv{}; tv.it_interval.tv_sec = 5; tv.it_value.tv_sec = 5;
        ::setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    }
#if !defined(__SANITIZE_ADDRESS__)
    struct rlimit rl{}; rl.rlim_cur = rl.rlim_max = (unsigned long long)MC_AS_GB << 30; ::setrlimit(RLIMIT_AS, &rl);
#endif
}

// ---- printing helpers
template <class S> inline std::string show(const S& s) {   // string of any char type
    std::string r = "\"";
    for (auto c : s) {
        auto u = (unsigned long)(typename std::make_unsigned<decltype(c)>::type)c;
        if (u >= 0x20 && u < 0x7f && u != '"' && u != '\\') r += char(u);
        else r += sfmt("\\x{%lX}", u);
    }
    return r + "\"";
}
template <> inline std::string show(const std::u32string& s) {
    std::string r = "\"";
    for (auto c : s) { if (c >= 0x20 && c < 0x7f && c != '"') r += char(c); else r += sfmt("\\x{%lX}", (unsigned long)c); }
    return r + "\"";
}
template <> inline std::string show(const std::u16string& s) {
    std::string r = "\"";
    for (auto c : s) { if (c >= 0x20 && c < 0x7f && c != '"') r += char(c); else r += sfmt("\\x{%lX}", (unsigned long)c); }
    return r + "\"";
}
template <> inline std::string show(const std::wstring& s) {
    std::string r = "\"";
    for (auto c : s) { if (c >= 0x20 && c < 0x7f && c != '"') r += char(c); else r += sfmt("\\x{%lX}", (unsigned long)c); }
    return r + "\"";
}
template <class C> inline std::uint64_t hash(const std::basic_string<C>& s, std::uint64_t h = 7) { return hash(s.data(), s.size() * sizeof(C), h); }

} // namespace mc

#define MC_MAIN(body) int main(int argc, char** argv) { mc::init(argc, argv); body(); mc::finish(0); }
#endif
