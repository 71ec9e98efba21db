// B01: audio buffers against plain vectors, through random programs of operations.
#include "probes.hpp"

using namespace hp;

template <typename T> struct Slot
{
    std::unique_ptr<hart::AudioBuffer<T>> b;
    Planes<T> m;
    size_t channels() const { return m.size(); }
    size_t frames = 0;
};

template <typename T> static std::string check (const Slot<T>& s)
{
    const hart::AudioBuffer<T>& b = *s.b;
    if (b.getNumChannels() != s.channels()) return hv::cat ("it has ", b.getNumChannels(), " channels instead of ", s.channels());
    if (b.getNumFrames() != s.frames) return hv::cat ("it has ", b.getNumFrames(), " frames instead of ", s.frames);
    if (s.frames == 0) return "";
    for (size_t c = 0; c < s.channels(); ++c)
    {
        const T* p = b[c];
        if (b.getArrayOfReadPointers()[c] != p) return hv::cat ("channel ", c, " is elsewhere in the array of read pointers");
        if (s.b->getArrayOfWritePointers()[c] != (*s.b)[c] || (*s.b)[c] != p) return hv::cat ("channel ", c, " is elsewhere in the array of write pointers");
        for (size_t f = 0; f < s.frames; ++f)
            if (! sameBits (p[f], s.m[c][f])) return hv::cat ("channel ", c, " frame ", f, " is ", (double) p[f], " instead of ", (double) s.m[c][f]);
    }
    return "";
}

template <typename T> static bool overlap (const Slot<T>& x, const Slot<T>& y)
{
    if (x.frames == 0 || y.frames == 0) return false;
    for (size_t a = 0; a < x.channels(); ++a)
        for (size_t b = 0; b < y.channels(); ++b)
        {
            const T *p = (*x.b)[a], *q = (*y.b)[b];
            if (&x == &y && a == b) continue;
            if (std::less<const T*>() (p, q + y.frames) && std::less<const T*>() (q, p + x.frames)) return true;
        }
    return false;
}

template <typename T> static hart::AudioBuffer<T> passed (hart::AudioBuffer<T> b) { return b; }

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    std::vector<Slot<T>> pool;
    std::string prog = hv::typeTag<T>();
    const size_t maxFrames = r.chance (0.03) ? 70000 : r.chance (0.3) ? 2000 : 40;
    const std::vector<size_t> counts { (size_t) r.range (0, 3), (size_t) r.range (1, 4), hv::genChannels (r, 128) };
    auto value = [&] () -> T
    {
        if (r.chance (0.02)) return r.pick ({ (T) 0, (T) -0.0, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::infinity(), (T) -1, (T) 1 });
        return (T) r.uni (-2, 2);
    };
    auto make = [&]
    {
        Slot<T> s;
        const size_t ch = r.pick (counts);
        s.frames = r.chance (0.2) ? 0 : std::min (hv::genSize (r, maxFrames), std::max<size_t> (1, 140000 / std::max<size_t> (1, ch)));
        s.m.assign (ch, std::vector<T> (s.frames));
        if (s.frames == 0 && ch == 0 && r.chance (0.5)) s.b.reset (new hart::AudioBuffer<T>());
        else if (s.frames == 0 && r.chance (0.5)) s.b.reset (new hart::AudioBuffer<T> (ch));
        else s.b.reset (new hart::AudioBuffer<T> (ch, s.frames));
        return s;
    };
    auto fill = [&] (Slot<T>& s)
    {
        const bool arrays = r.chance (0.3);
        for (size_t c = 0; c < s.channels(); ++c)
            for (size_t f = 0; f < s.frames; ++f)
            {
                const T v = value();
                s.m[c][f] = v;
                if (arrays) s.b->getArrayOfWritePointers()[c][f] = v; else (*s.b)[c][f] = v;
            }
    };
    const int n = (int) r.range (3, 30);
    for (int step = 0; step < n; ++step)
    {
        if (pool.empty() || (pool.size() < 6 && r.chance (0.2)))
        {
            pool.push_back (make());
            prog += hv::cat (" new(", pool.back().channels(), "x", pool.back().frames, ")");
            const auto e = check (pool.back());
            cx.need (e.empty(), "new", prog + ": a new buffer: " + e);
            if (r.chance (0.8)) fill (pool.back());
            cx.saw ("new buffers");
            continue;
        }
        const size_t i = (size_t) r.range (0, (int64_t) pool.size() - 1), j = (size_t) r.range (0, (int64_t) pool.size() - 1);
        auto &a = pool[i], &b = pool[j];
        const bool same = a.channels() == b.channels();
        bool threw = false;
        auto refused = [&] (const char* what)
        {
            if (same) { cx.need (! threw, std::string (what) + "-refused", prog + ": refused between buffers of the same channel count"); return; }
            cx.need (threw, std::string (what) + "-mismatch-accepted", prog + ": accepted between buffers of different channel counts");
            cx.saw ("refusals");
        };
        switch ((int) r.range (0, 12))
        {
            case 0: fill (a); prog += hv::cat (" fill", i); break;
            case 1:  // copy construction
            {
                Slot<T> s;
                s.b.reset (new hart::AudioBuffer<T> (*a.b));
                s.m = a.m; s.frames = a.frames;
                prog += hv::cat (" copy", i);
                cx.need (! overlap (s, a), "shared-copy", prog + ": the copy shares memory with the original");
                pool.push_back (std::move (s));
                cx.saw ("copies");
                break;
            }
            case 2:  // move construction
            {
                Slot<T> s;
                prog += hv::cat (" move", i);
                s.b.reset (new hart::AudioBuffer<T> (std::move (*a.b)));
                s.m = a.m; s.frames = a.frames;
                a.frames = 0;
                for (auto& c : a.m) c.clear();
                pool.push_back (std::move (s));
                cx.saw ("moves");
                break;
            }
            case 3:
            case 4:
                prog += hv::cat (" assign", i, "=", j);
                try { *a.b = *b.b; } catch (const std::exception&) { threw = true; }
                refused ("assign");
                if (same) { a.m = b.m; a.frames = b.frames; cx.saw (i == j ? "self-assignments" : "assignments"); }
                break;
            case 5:
                prog += hv::cat (" moveassign", i, "=", j);
                try { *a.b = std::move (*b.b); } catch (const std::exception&) { threw = true; }
                refused ("move-assign");
                if (same && i != j)
                {
                    a.m = b.m; a.frames = b.frames;
                    b.frames = 0;
                    for (auto& c : b.m) c.clear();
                    cx.saw ("move-assignments");
                }
                break;
            case 6:
            case 7:
                if (a.frames + b.frames > 200000) break;
                prog += hv::cat (" append", i, "+=", j);
                try { a.b->appendFrom (*b.b); } catch (const std::exception&) { threw = true; }
                refused ("append");
                if (same)
                {
                    const Planes<T> add = b.m;
                    for (size_t c = 0; c < add.size(); ++c) a.m[c].insert (a.m[c].end(), add[c].begin(), add[c].end());
                    a.frames += i == j ? a.frames : b.frames;
                    cx.saw (i == j ? "self-appends" : "appends");
                }
                break;
            case 8:
                prog += hv::cat (" clear", i);
                a.b->clear();
                a.frames = 0;
                for (auto& c : a.m) c.clear();
                cx.saw ("clears");
                break;
            case 9:
            {
                Slot<T> s;
                prog += hv::cat (" like", i);
                s.b.reset (new hart::AudioBuffer<T> (hart::AudioBuffer<T>::emptyLike (*a.b)));
                s.frames = a.frames;
                s.m.assign (a.channels(), std::vector<T> (a.frames));
                pool.push_back (std::move (s));
                break;
            }
            case 10:  // through functions and containers
            {
                prog += hv::cat (" pass", i);
                std::vector<hart::AudioBuffer<T>> v;
                for (int k = (int) r.range (1, 5); k > 0; --k) v.push_back (*a.b);
                for (auto& x : v)
                {
                    Slot<T> s;
                    s.b.reset (new hart::AudioBuffer<T> (passed<T> (std::move (x))));
                    s.m = a.m; s.frames = a.frames;
                    const auto e = check (s);
                    cx.need (e.empty(), "passed", prog + ": a buffer that was passed around: " + e);
                }
                cx.saw ("passed around");
                break;
            }
            case 11: if (pool.size() > 1) { prog += hv::cat (" drop", i); pool.erase (pool.begin() + (long) i); } break;
            default:  // magnitudes
            {
                const size_t big = std::numeric_limits<size_t>::max();
                for (int k = 0; k < 6; ++k)
                {
                    const size_t f = a.frames;
                    size_t from = f == 0 ? 0 : (size_t) r.range (0, (int64_t) f), num = f == 0 ? 1 : (size_t) r.range (0, (int64_t) f), ch = (size_t) r.range (0, (int64_t) a.channels());
                    if (r.chance (0.5) && from < f) num = (size_t) r.range (1, (int64_t) (f - from));
                    if (r.chance (0.1)) { from = 0; num = f; }
                    if (r.chance (0.06)) from = r.pick ({ big, big - 1, big / 2, f + 1, big - f });
                    if (r.chance (0.06)) num = r.pick ({ big, big - 1, big - from, big - from + 1, big / 2, f + 1 });
                    if (r.chance (0.05)) ch = r.pick ({ big, a.channels() + 1, (size_t) 1 << 32 });
                    const bool one = r.chance (0.6);
                    const bool range = num > 0 && from <= f && num <= f - from, valid = range && (! one || ch < a.channels());
                    if (! valid && ! one && a.channels() == 0) continue;
                    T got = 0;
                    threw = false;
                    try { got = one ? a.b->getMagnitude (ch, from, num) : a.b->getMagnitude (from, num); } catch (const std::exception&) { threw = true; }
                    const std::string what = hv::cat (prog, ": magnitude of ", one ? hv::cat ("channel ", ch) : std::string ("all channels"), " from ", from, ", ", num, " of ", f, " frames");
                    cx.need (threw == ! valid, valid ? "magnitude-refused" : "magnitude-range", what + (threw ? " was refused" : " was accepted"));
                    if (! valid || threw) { cx.saw ("magnitude refusals"); continue; }
                    T want = 0;
                    for (size_t c = one ? ch : 0; c < (one ? ch + 1 : a.channels()); ++c)
                        for (size_t x = from; x < from + num; ++x) want = std::max (want, std::abs (a.m[c][x]));
                    cx.need (got == want, "magnitude", hv::cat (what, " is ", (double) got, " instead of ", (double) want));
                    cx.saw ("magnitudes");
                }
            }
        }
        if (pool.size() > 8) pool.erase (pool.begin());
        for (size_t k = 0; k < pool.size(); ++k)
        {
            const auto e = check (pool[k]);
            if (! e.empty()) { cx.viol ("content", prog + hv::cat (": buffer ", k, ": ", e)); return; }
        }
        cx.saw ("states compared", pool.size());
    }
    for (size_t x = 0; x < pool.size(); ++x) for (size_t y = x; y < pool.size(); ++y) cx.need (! overlap (pool[x], pool[y]), "overlap", prog + ": channels overlap in memory");
    cx.nontrivial (prog);
    if (cx.index % 3000 == 0) cx.sample (prog);
}

void hv_case (hv::Ctx& cx)
{
    const size_t before = hv::liveBytes();
    cx.distinct.reserve (cx.distinct.size() + 2);
    if (cx.rng.chance (0.5)) run<float> (cx); else run<double> (cx);
    (void) before;
}
