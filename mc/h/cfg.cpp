// C24: the catalogue of mc/cfg/catalog.cpp, compiled in every configuration (see props.py), gives the same records in all.
#include <string>
#include <vector>
#include <map>
#include <dlfcn.h>
#include "mc.hpp"
using std::string;
struct Rec { string key; std::vector<std::uint32_t> u; long size, width, extra; };
typedef void (*Cb)(void*, const char*, const std::uint32_t*, long, long, long, long);
typedef void (*Sec)(Cb, void*);
static std::vector<string> split(const char* s) { std::vector<string> r{""}; for (; *s; ++s) if (*s == ';') r.push_back(""); else r.back() += *s; return r; }
static Sec load(const string& path, int k) {
    void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { std::fprintf(stderr, "%s\n", dlerror()); std::abort(); }
    auto f = (Sec)dlsym(h, ("cfg_sec" + std::to_string(k)).c_str());
    if (!f) std::abort();
    return f;
}
static void collect(void* c, const char* key, const std::uint32_t* u, long n, long size, long width, long extra) { ((std::vector<Rec>*)c)->push_back({key, std::vector<std::uint32_t>(u, u + n), size, width, extra}); }
static string text(const Rec& r) { string s = "\""; for (auto c : r.u) { if (s.size() > 150) { s += "..."; break; } if (c >= 32 && c < 127) s += (char)c; else s += mc::sfmt("\\x{%X}", (unsigned)c); } return s + mc::sfmt("\" (%zu units; %ld, %ld, %ld)", r.u.size(), r.size, r.width, r.extra); }
struct Cmp { const std::vector<Rec>* base; const string* name; size_t i = 0; int bad = 0; };
static void compare(void* v, const char* key, const std::uint32_t* u, long n, long size, long width, long extra) {
    Cmp& c = *(Cmp*)v; mc::step(); if ((c.i & 1023) == 0) mc::alive();
    const size_t i = c.i++;
    if (i >= c.base->size()) { if (c.bad++ < 3) mc::fail(*c.name + " extra record", *c.name + ": more records than in the reference configuration"); return; }
    const Rec& b = (*c.base)[i];
    if (b.key != key || b.u.size() != (size_t)n || (n && std::memcmp(b.u.data(), u, (size_t)n * 4)) || b.size != size || b.width != width || b.extra != extra) {
        Rec got{key, std::vector<std::uint32_t>(u, u + n), size, width, extra};
        if (c.bad++ < 3) mc::fail(*c.name + ": " + b.key, *c.name + ": " + b.key + (b.key != key ? string(" (") + key + ")" : "") + ": " + text(got) + ", but " + text(b) + " in the reference configuration");
    }
}
static void body() {
    auto names = split(CFG_NAMES), paths = split(CFG_PATHS);
    static std::map<int, std::vector<Rec>> bases;
    for (int k = 0; k < 4; ++k) for (size_t i = 0; i < names.size(); ++i) {
        if (!mc::take()) continue;
        auto& b = bases[k];
        if (b.empty()) load(paths[0], k)(collect, &b);
        if (i == 0) {               // the reference itself: the two ways of printing agree, nothing was cut
            for (auto& r : b) { mc::step(); mc::state(mc::hash(r.key, mc::hash(r.u.data(), r.u.size() * 4))); if (r.key.compare(0, 4, "str ") == 0 && r.key.find(" notes") == string::npos && r.extra) mc::fail(names[0] + ": " + r.key, names[0] + ": " + r.key + ": " + text(r) + ": printed differently through a small buffer"); if (mc::want_sample()) mc::sample(r.key + " -> " + text(r)); }
            continue;
        }
        Cmp c{&b, &names[i]};
        load(paths[i], k)(compare, &c);
        if (c.i < b.size()) mc::fail(names[i] + " missing records", names[i] + mc::sfmt(": %zu records, the reference has %zu", c.i, b.size()));
        mc::state(mc::hash(names[i], (std::uint64_t)k));
    }
}
MC_MAIN(body)
