// Shared machinery of the HART runtime monitors: deterministic PRNG, hostile
// input generators, violation reporting, coverage counters and the case loop.
//
// A harness defines   void hv_case (hv::Ctx& cx)   and nothing else; main() is here.
// Every case depends only on (seed, case index), so a violation is replayed with
//     <binary> --seed S --only K --tier T --out FILE
#pragma once

#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <typeinfo>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define HV_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HV_ASAN 1
#endif
#endif
#ifdef HV_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace hv
{

inline uint64_t mix (uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline uint64_t hashOf (const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix (h);
}

struct Rng
{
    uint64_t s;
    explicit Rng (uint64_t seed): s (mix (seed)) {}
    uint64_t u64() { s += 0x9e3779b97f4a7c15ull; return mix (s); }
    /// uniform in [lo, hi]
    int64_t range (int64_t lo, int64_t hi) { return lo + (int64_t) (u64() % (uint64_t) (hi - lo + 1)); }
    double uni() { return (double) (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni (double lo, double hi) { return lo + (hi - lo) * uni(); }
    bool chance (double p) { return uni() < p; }
    template <typename T> const T& pick (const std::vector<T>& v) { return v[(size_t) (u64() % v.size())]; }
    template <typename T> T pick (std::initializer_list<T> v) { return *(v.begin() + (size_t) (u64() % v.size())); }
    template <typename T> void shuffle (std::vector<T>& v)
    {
        for (size_t i = v.size(); i > 1; --i) std::swap (v[i - 1], v[(size_t) (u64() % i)]);
    }
};

inline std::string jsonEscape (const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf (b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o;
}

struct Out
{
    FILE* f = nullptr;
    void line (const std::string& s) { std::fputs (s.c_str(), f); std::fputc ('\n', f); std::fflush (f); }
};

struct Ctx
{
    Rng rng {0};
    uint64_t seed = 0, index = 0, cases = 0;
    bool thorough = false;
    bool verbose = false;
    std::string scratch;  // a private directory of this process
    Out* out = nullptr;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t violations = 0;
    std::string describe;  // what the current case does, for reports

    /// counts something the monitor actually observed
    void saw (const std::string& what, uint64_t n = 1) { counters[what] += n; }
    /// marks this case as distinct and non-trivial
    void nontrivial (const std::string& signature) { distinct.insert (hashOf (signature)); }
    void sample (const std::string& s) { if (samples.size() < 4) samples.push_back (s); }

    void viol (const std::string& key, const std::string& msg)
    {
        ++violations;
        if (violations < 400)
            out->line ("{\"t\":\"viol\",\"case\":" + std::to_string (index) + ",\"key\":\"" + jsonEscape (key)
                       + "\",\"msg\":\"" + jsonEscape (msg + (describe.empty() ? "" : "  [case: " + describe + "]")) + "\"}");
    }
    void need (bool ok, const std::string& key, const std::string& msg)
    {
        if (! ok) viol (key, msg);
    }
};

template <typename... A> std::string cat (const A&... a)
{
    std::ostringstream s;
    s << std::setprecision (17);
    (void) std::initializer_list<int> { ((void) (s << a), 0)... };
    return s.str();
}

// ---- hostile generators -------------------------------------------------------------------

inline size_t genSize (Rng& r, size_t max)
{
    static const std::vector<size_t> edges { 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129,
        240, 255, 256, 257, 441, 480, 511, 512, 513, 960, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193,
        16384, 16385, 32768, 44100, 48000, 65535, 65536, 65537, 100000, 131073 };
    for (int tries = 0; tries < 50; ++tries)
    {
        size_t v = r.chance (0.55) ? r.pick (edges) : (size_t) r.range (1, r.chance (0.7) ? 200 : (int64_t) max);
        if (v <= max) return v;
    }
    return (size_t) r.range (1, (int64_t) max);
}

inline size_t genChannels (Rng& r, size_t max = 128)
{
    static const std::vector<size_t> edges { 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257 };
    for (;;)
    {
        const size_t v = r.chance (0.6) ? (size_t) r.range (1, 4) : r.pick (edges);
        if (v <= max) return v;
    }
}

inline double genRate (Rng& r)
{
    static const std::vector<double> rates { 8000, 11025, 16000, 22050, 32000, 44100, 44100, 48000, 48000, 88200, 96000, 176400, 192000, 384000,
        1000, 100, 1, 44100.5, 12345.678, 44099.999, 47952.047952, 22254.54545, 768000 };
    return r.chance (0.85) ? r.pick (rates) : r.uni (500.0, 200000.0);
}

/// a duration in seconds that rounds to exactly `frames` frames at `rate`
inline double durationFor (Rng& r, double rate, size_t frames)
{
    double frac = r.chance (0.4) ? 0.0 : r.uni (frames == 0 ? 0.0 : -0.45, 0.45);
    if (r.chance (0.1)) frac = frames == 0 || r.chance (0.5) ? 0.4999 : -0.4999;
    return ((double) frames + frac) / rate;
}

/// splits `total` frames into blocks; returns the sizes, none larger than maxBlock
inline std::vector<size_t> genPartition (Rng& r, size_t total, size_t maxBlock)
{
    std::vector<size_t> p;
    const int mode = (int) r.range (0, 3);
    const size_t fixed = std::min (maxBlock, genSize (r, maxBlock));
    while (total > 0)
    {
        size_t n;
        if (mode == 0) n = fixed;
        else if (mode == 1) n = maxBlock;
        else if (mode == 2) n = (size_t) r.range (1, (int64_t) maxBlock);
        else n = genSize (r, maxBlock);
        n = std::min (n, total);
        p.push_back (n);
        total -= n;
    }
    return p;
}

/// sizes of a host-style partition: all blocks equal, the last possibly shorter
inline std::vector<size_t> hostPartition (size_t total, size_t block)
{
    std::vector<size_t> p;
    while (total > 0) { const size_t n = std::min (total, block); p.push_back (n); total -= n; }
    return p;
}

template <typename T> std::string typeTag();
template <> inline std::string typeTag<float>() { return "float"; }
template <> inline std::string typeTag<double>() { return "double"; }

inline bool fileExists (const std::string& p) { struct stat st; return ::stat (p.c_str(), &st) == 0; }
inline std::string readFile (const std::string& p)
{
    std::ifstream f (p, std::ios::binary);
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}
inline void writeFile (const std::string& p, const std::string& data)
{
    std::ofstream f (p, std::ios::binary);
    f.write (data.data(), (std::streamsize) data.size());
}

/// captures everything written to std::cout while alive
struct CaptureCout
{
    std::ostringstream s;
    std::streambuf* old;
    CaptureCout(): old (std::cout.rdbuf (s.rdbuf())) {}
    ~CaptureCout() { std::cout.rdbuf (old); }
    std::string str() const { return s.str(); }
};

inline size_t liveBytes()
{
#ifdef HV_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

/// the handle that would be opened next, which grows when handles are left open
inline int nextHandle()
{
    const int fd = ::dup (0);
    if (fd >= 0) ::close (fd);
    return fd < 0 ? 1 << 20 : fd;
}

inline std::string stripNumbers (const std::string& s)
{
    std::string o;
    for (char c : s) if (! std::isdigit ((unsigned char) c)) o += c;
    return o.substr (0, 160);
}

}  // namespace hv

void hv_case (hv::Ctx& cx);

#ifndef HV_NO_MAIN
int main (int argc, char** argv)
{
    uint64_t seed = 1, from = 0, to = 100, step = 1;
    long long only = -1;
    std::string outPath = "/dev/stderr", curPath, tier = "quick", scratch = "/tmp";
    bool verbose = false;

    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        auto next = [&] { return std::string (i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = std::stoull (next());
        else if (a == "--from") from = std::stoull (next());
        else if (a == "--to") to = std::stoull (next());
        else if (a == "--step") step = std::stoull (next());
        else if (a == "--only") only = std::stoll (next());
        else if (a == "--out") outPath = next();
        else if (a == "--cur") curPath = next();
        else if (a == "--tier") tier = next();
        else if (a == "--scratch") scratch = next();
        else if (a == "--verbose") verbose = true;
        else { std::fprintf (stderr, "bad argument %s\n", a.c_str()); return 3; }
    }

    // few handles, so that leaving them open makes later files fail
    rlimit handles;
    if (::getrlimit (RLIMIT_NOFILE, &handles) == 0) { handles.rlim_cur = std::min<rlim_t> (handles.rlim_cur, 48); ::setrlimit (RLIMIT_NOFILE, &handles); }

    hv::Out out;
    out.f = std::fopen (outPath.c_str(), "a");
    if (out.f == nullptr) { std::perror ("out"); return 3; }

    uint64_t* cur = nullptr;
    if (! curPath.empty())
    {
        const int fd = ::open (curPath.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ::ftruncate (fd, 16) != 0) { std::perror ("cur"); return 3; }
        cur = (uint64_t*) ::mmap (nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (cur == MAP_FAILED) { std::perror ("mmap"); return 3; }
    }

    hv::Ctx cx;
    cx.out = &out;
    cx.seed = seed;
    cx.thorough = tier == "thorough";
    cx.verbose = verbose;
    cx.scratch = scratch;

    if (only >= 0) { from = (uint64_t) only; to = from + 1; step = 1; }
    cx.cases = to;

    uint64_t done = 0;
    for (uint64_t k = from; k < to; k += step)
    {
        cx.index = k;
        cx.describe.clear();
        cx.rng = hv::Rng (seed * 0x100000001b3ull ^ hv::mix (k + 0x51ed27));
        if (cur) { cur[0] = k; cur[1] = 1; }
        try
        {
            hv_case (cx);
        }
        catch (const std::exception& e)
        {
            cx.viol (std::string ("unexpected-exception:") + typeid (e).name() + ":" + hv::stripNumbers (e.what()), e.what());
        }
        catch (...)
        {
            cx.viol ("unexpected-exception:unknown", "an exception that is not a std::exception");
        }
        ++done;
        if (verbose) std::fprintf (stderr, "case %llu: %s\n", (unsigned long long) k, cx.describe.c_str());
    }
    if (cur) cur[1] = 2;

    std::string s = "{\"t\":\"sum\",\"cases\":" + std::to_string (done) + ",\"counters\":{";
    bool first = true;
    for (auto& c : cx.counters)
    {
        s += (first ? "\"" : ",\"") + hv::jsonEscape (c.first) + "\":" + std::to_string (c.second);
        first = false;
    }
    s += "},\"distinct\":[";
    first = true;
    for (uint64_t h : cx.distinct)
    {
        char b[24];
        std::snprintf (b, sizeof b, "%s\"%llx\"", first ? "" : ",", (unsigned long long) h);
        s += b;
        first = false;
    }
    s += "],\"samples\":[";
    first = true;
    for (auto& x : cx.samples)
    {
        s += (first ? "\"" : ",\"") + hv::jsonEscape (x) + "\"";
        first = false;
    }
    out.line (s + "]}");
    return 0;
}
#endif
