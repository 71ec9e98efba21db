// U01: units and conversions against independent formulas.
#include "probes.hpp"

using namespace hp;

template <typename T> static T genAny (hv::Rng& r, double lo, double hi)
{
    switch ((int) r.range (0, 5))
    {
        case 0: return (T) std::round (r.uni (lo, hi));
        case 1: return (T) (std::round (r.uni (lo, hi) * 2) / 2);
        case 2: { T v = (T) std::round (r.uni (lo, hi)); for (int i = (int) r.range (1, 3); i > 0; --i) v = std::nextafter (v, (T) (r.chance (0.5) ? hi : lo)); return v; }
        default: return (T) r.uni (lo, hi);
    }
}

template <typename T> static bool near (T a, double want, double rel, double abs)
{
    if (std::isinf (want)) return (double) a == want;
    return std::abs ((double) a - want) <= rel * std::abs (want) + abs;
}

template <typename T> static void decibels (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const bool f = sizeof (T) == 4;
    const std::string t = hv::typeTag<T>();
    const double rel = f ? 3e-6 : 1e-12, abs = f ? 3e-5 : 1e-10;
    T prev = 0, prevRatio = 0;
    for (int i = 0; i < 60; ++i)
    {
        T db = genAny<T> (r, -140, 140);
        if (r.chance (0.1)) db = r.pick ({ (T) -120, (T) 0, (T) 6, (T) -6, (T) 20, (T) -20, std::nextafter ((T) -120, (T) -200), std::nextafter ((T) -120, (T) 0), (T) -119.999, (T) -1e30, (T) 700 });
        const T ratio = hart::decibelsToRatio (db);
        const double want = (double) db < -120 ? 0.0 : std::pow (10.0, (double) db / 20.0);
        if (! (f && want > 1e38))
            cx.need (want == 0 ? ratio == (T) 0 : near (ratio, want, rel, 0), "decibels-to-ratio-" + t, hv::cat ("decibelsToRatio (", (double) db, ") = ", (double) ratio, ", want ", want));
        if (i > 0 && prev != db)
            cx.need (prev < db ? prevRatio <= ratio * (T) (1 + rel) : ratio <= prevRatio * (T) (1 + rel), "monotonic-" + t, hv::cat ("decibelsToRatio (", (double) prev, ") = ", (double) prevRatio, ", decibelsToRatio (", (double) db, ") = ", (double) ratio));
        if ((double) db >= -119.99 && want < 1e30)
            cx.need (near (hart::ratioToDecibels (ratio), (double) db, rel, abs), "inverse-" + t, hv::cat ("ratioToDecibels (decibelsToRatio (", (double) db, ")) = ", (double) hart::ratioToDecibels (ratio)));
        if ((double) db <= -120.01)
            cx.need (hart::ratioToDecibels (ratio) == (T) -120, "floor-" + t, hv::cat ("ratioToDecibels (decibelsToRatio (", (double) db, ")) = ", (double) hart::ratioToDecibels (ratio)));
        prev = db;
        prevRatio = ratio;
        cx.saw ("decibels");

        T lin = (T) std::pow (10.0, r.uni (-9, 6));
        if (r.chance (0.15)) lin = r.pick ({ (T) 0, (T) 1, (T) 2, (T) 0.5, (T) 1e-6, (T) 1e-7, (T) 0.1, (T) 10, std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min() });
        const T back = hart::ratioToDecibels (lin);
        const double wantDb = (double) lin < 1e-6 ? -120.0 : 20 * std::log10 ((double) lin);
        cx.need (near (back, wantDb, rel, abs), "ratio-to-decibels-" + t, hv::cat ("ratioToDecibels (", (double) lin, ") = ", (double) back, ", want ", wantDb));
        if ((double) lin >= 1.0001e-6)
            cx.need (near (hart::decibelsToRatio (back), (double) lin, f ? 1e-5 : 1e-11, 0), "inverse-ratio-" + t, hv::cat ("decibelsToRatio (ratioToDecibels (", (double) lin, ")) = ", (double) hart::decibelsToRatio (back)));
        const T lin2 = lin * (T) (1 + std::pow (10.0, r.uni (-6, 1)));
        cx.need (back <= hart::ratioToDecibels (lin2) + (T) abs, "monotonic-ratio-" + t, hv::cat ("ratioToDecibels falls between ", (double) lin, " and ", (double) lin2));
        cx.saw ("ratios");
    }
    const T inf = std::numeric_limits<T>::infinity();
    cx.need (hart::decibelsToRatio (-inf) == (T) 0, "minus-infinity-" + t, "minus infinity decibels are not zero");
    cx.need (hart::decibelsToRatio (inf) == inf, "infinity-" + t, "infinity decibels are not infinite");
    cx.need (hart::ratioToDecibels ((T) 0) == (T) -120, "zero-" + t, "a ratio of zero is not -120 dB");
}

template <typename T> static void phases (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const std::string t = hv::typeTag<T>();
    const double eps = (double) std::numeric_limits<T>::epsilon();
    const long double turn = 6.283185307179586476925286766559L;
    for (int i = 0; i < 60; ++i)
    {
        T p = genAny<T> (r, -50, 50);
        switch ((int) r.range (0, 5))
        {
            case 0: p = (T) (std::round (r.uni (-40, 40)) * (double) turn); break;
            case 1: p = std::nextafter ((T) (std::round (r.uni (-40, 40)) * (double) turn / 2), (T) (r.chance (0.5) ? 1e9 : -1e9)); break;
            case 2: p = (T) r.uni (-1e4, 1e4); break;
            case 4: p = (T) (std::pow (10.0, r.uni (2, sizeof (T) == 4 ? 6 : 12)) * (r.chance (0.5) ? 1 : -1)); break;
            case 3: p = (T) (r.uni (-1, 1) * std::pow (10.0, r.uni (-12, 0))); break;
            case 5: break;
            default: break;
        }
        const T w = hart::wrapPhase (p);
        cx.need (w >= (T) 0 && w <= (T) turn * (T) (1 + 2 * eps), "phase-range-" + t, hv::cat ("wrapPhase (", (double) p, ") = ", (double) w));
        const long double d = remainderl ((long double) p - (long double) w, turn);
        const double tol = 4 * eps * (std::abs ((double) p) + 7);
        cx.need (fabsl (d) <= tol, "phase-equivalent-" + t, hv::cat ("wrapPhase (", (double) p, ") = ", (double) w, " is off by ", (double) d));
        cx.saw ("phases");
    }
}

template <typename T> static void rounding (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const std::string t = hv::typeTag<T>();
    for (int i = 0; i < 60; ++i)
    {
        T x;
        switch ((int) r.range (0, 5))
        {
            case 0: x = (T) r.range (0, 1000000); break;
            case 1: x = (T) r.range (0, 100000) + (T) 0.5; break;
            case 2: x = std::nextafter ((T) r.range (0, 100) + (T) 0.5, (T) (r.chance (0.5) ? 1e9 : 0)); break;
            case 3: x = (T) std::pow (2.0, r.uni (0, sizeof (T) == 4 ? 30 : 60)); break;
            case 4: x = (T) r.range (sizeof (T) == 4 ? (1 << 22) : (1ll << 51), sizeof (T) == 4 ? (1 << 24) : (1ll << 53)); break;
            default: x = (T) r.uni (0, 1e5);
        }
        const size_t n = hart::roundToSizeT (x);
        const long double d = fabsl ((long double) n - (long double) x);
        cx.need (d <= 0.5L, "rounding-" + t, hv::cat ("roundToSizeT (", (double) x, ") = ", n));
        cx.saw ("roundings");
    }
}

template <typename T> static void comparing (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const std::string t = hv::typeTag<T>();
    for (int i = 0; i < 60; ++i)
    {
        const T a = genAny<T> (r, -3, 3);
        const T eps = (T) std::pow (10.0, r.uni (-7, 0));
        const bool def = r.chance (0.3);
        const T b = r.chance (0.2) ? a : r.chance (0.5) ? (T) (a + (def ? (T) 1e-8 : eps) * r.uni (-2, 2)) : r.chance (0.1) ? (T) (a + eps * r.uni (-2, 2)) : genAny<T> (r, -3, 3);
        const double e = def ? 1e-8 : (double) eps;
        const bool eq = def ? hart::floatsEqual (a, b) != 0 : hart::floatsEqual (a, b, eps) != 0;
        const bool ne = def ? hart::floatsNotEqual (a, b) != 0 : hart::floatsNotEqual (a, b, eps) != 0;
        const bool eqS = def ? hart::floatsEqual (b, a) != 0 : hart::floatsEqual (b, a, eps) != 0;
        const std::string what = hv::cat ("for ", (double) a, ", ", (double) b, " and tolerance ", e);
        cx.need (eq != ne, "complementary-" + t, "floatsEqual() and floatsNotEqual() agree " + what);
        cx.need (eq == eqS, "symmetric-" + t, "floatsEqual() is not symmetric " + what);
        const double d = std::abs ((double) a - (double) b), slack = (double) std::numeric_limits<T>::epsilon() * (std::abs ((double) a) + std::abs ((double) b));
        if (d < e * 0.999 - slack) cx.need (eq, "equal-" + t, "floatsEqual() is false " + what);
        if (d > e * 1.001 + slack) cx.need (! eq, "not-equal-" + t, "floatsEqual() is true " + what);
        cx.saw ("comparisons");
        const T nan = std::numeric_limits<T>::quiet_NaN(), inf = std::numeric_limits<T>::infinity();
        const T x = r.pick ({ nan, inf, -inf, std::numeric_limits<T>::max() }), y = r.pick ({ nan, inf, -inf, a });
        const bool xe = hart::floatsEqual (x, y) != 0, xn = hart::floatsNotEqual (x, y) != 0;
        cx.need (xe != xn, "complementary-special-" + t, hv::cat ("floatsEqual() and floatsNotEqual() agree for ", (double) x, " and ", (double) y));
        cx.need (xe == (hart::floatsEqual (y, x) != 0), "symmetric-" + t, hv::cat ("floatsEqual() is not symmetric for ", (double) x, " and ", (double) y));
        if (std::isnan (x) || std::isnan (y)) cx.need (! xe, "equal-nan-" + t, "a NaN equals something");

        const T lo = genAny<T> (r, -10, 5), hi = lo + std::abs (genAny<T> (r, 0, 10)), v = genAny<T> (r, -20, 20);
        const T c = hart::clamp (v, lo, hi);
        cx.need (c == (v < lo ? lo : v > hi ? hi : v), "clamp-" + t, hv::cat ("clamp (", (double) v, ", ", (double) lo, ", ", (double) hi, ") = ", (double) c));
        const long il = r.range (-100, 50), ih = il + r.range (0, 100), iv = r.range (-300, 300);
        cx.need (hart::clamp (iv, il, ih) == std::min (std::max (iv, il), ih), "clamp-integers", hv::cat ("clamp (", iv, ", ", il, ", ", ih, ")"));
        cx.saw ("clamps");
    }
}

static void literals (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const long double piL = 3.14159265358979323846264338327950288L;
    struct Unit { const char* name; double (*f) (long double); double (*i) (unsigned long long); long double scale; };
    static const Unit units[] = {
        { "_s", [] (long double v) { return operator""_s (v); }, [] (unsigned long long v) { return operator""_s (v); }, 1.0L },
        { "_ms", [] (long double v) { return operator""_ms (v); }, [] (unsigned long long v) { return operator""_ms (v); }, 1e-3L },
        { "_us", [] (long double v) { return operator""_us (v); }, [] (unsigned long long v) { return operator""_us (v); }, 1e-6L },
        { "_dB", [] (long double v) { return operator""_dB (v); }, [] (unsigned long long v) { return operator""_dB (v); }, 1.0L },
        { "_Hz", [] (long double v) { return operator""_Hz (v); }, [] (unsigned long long v) { return operator""_Hz (v); }, 1.0L },
        { "_kHz", [] (long double v) { return operator""_kHz (v); }, [] (unsigned long long v) { return operator""_kHz (v); }, 1e3L },
        { "_rad", [] (long double v) { return operator""_rad (v); }, [] (unsigned long long v) { return operator""_rad (v); }, 1.0L },
        { "_deg", [] (long double v) { return operator""_deg (v); }, [] (unsigned long long v) { return operator""_deg (v); }, piL / 180.0L },
    };
    for (auto& u : units)
        for (int i = 0; i < 20; ++i)
        {
            const unsigned long long n = r.chance (0.3) ? (unsigned long long) r.range (0, 20) : r.chance (0.2) ? r.u64() : (unsigned long long) std::pow (2.0, r.uni (0, 62));
            const long double v = r.chance (0.3) ? (long double) r.range (0, 4000) / 8 : (long double) std::pow (10.0, r.uni (-6, 7));
            const double a = u.i (n), b = u.f (v);
            const long double wa = (long double) n * u.scale, wb = v * u.scale;
            cx.need (fabsl (a - wa) <= 4e-16L * wa, hv::cat ("literal", u.name), hv::cat (n, u.name, " = ", a, ", want ", (double) wa));
            cx.need (fabsl (b - wb) <= 4e-16L * wb, hv::cat ("literal", u.name), hv::cat ((double) v, u.name, " = ", b, ", want ", (double) wb));
            cx.saw ("literals", 2);
        }
    auto same = [&] (double got, long double want, const char* what) { cx.need (std::isinf (got) ? std::isinf ((double) want) && got > 0 : fabsl (got - want) <= 2e-16L * want, "constant", hv::cat (what, " = ", got)); };
    same (pi_rad, piL, "pi_rad");
    same (twoPi_rad, 2 * piL, "twoPi_rad");
    same (halfPi_rad, piL / 2, "halfPi_rad");
    same (hart::pi, piL, "pi");
    same (hart::twoPi, 2 * piL, "twoPi");
    same (hart::halfPi, piL / 2, "halfPi");
    same (inf_dB, HUGE_VALL, "inf_dB");
    same (oo_dB, HUGE_VALL, "oo_dB");
    same (hart::inf, HUGE_VALL, "inf");
    same (hart::oo, HUGE_VALL, "oo");
    same (1_s, 1.0L, "1_s"); same (100_ms, 0.1L, "100_ms"); same (0.5_ms, 0.0005L, "0.5_ms"); same (44.1_kHz, 44100.0L, "44.1_kHz"); same (90_deg, piL / 2, "90_deg"); same (180.0_deg, piL, "180.0_deg");
}

/// components of a path, without "." and empty ones; a leading "/" is kept
static std::string normal (const std::string& p)
{
    std::string o = ! p.empty() && p[0] == '/' ? "/" : "", part;
    for (size_t i = 0; i <= p.size(); ++i)
    {
        if (i < p.size() && p[i] != '/') { part += p[i]; continue; }
        if (! part.empty() && part != ".") o += part + "/";
        part.clear();
    }
    return o;
}

static void paths (hv::Ctx& cx)
{
    auto& r = cx.rng;
    static const std::vector<std::string> parts { "a", "data", "some dir", ".", "..", "x.wav", "out.svg", "-d", "C:", "c", "\xc3\xa9t\xc3\xa9", "deep", "~", "a\\b", "." };
    auto rel = [&] { std::string s = r.pick (parts); for (int i = (int) r.range (0, 4); i > 0; --i) s += "/" + r.pick (parts); return s; };
    for (int i = 0; i < 10; ++i)
    {
        const std::string root = r.chance (0.2) ? "." : (r.chance (0.6) ? "/" : "root") + rel();
        setOptions ({ "--data-root-path", root });
        for (int k = 0; k < 4; ++k)
        {
            const std::string p = rel(), q = "/" + rel();
            cx.need (! hart::isAbsolutePath (p), "relative-path", p + " is taken for an absolute path");
            cx.need (hart::isAbsolutePath (q), "absolute-path", q + " is not taken for an absolute path");
            cx.need (hart::toAbsolutePath (q) == q, "absolute-kept", q + " becomes " + hart::toAbsolutePath (q));
            cx.need (normal (hart::toAbsolutePath (p)) == normal (root + "/" + p), "relative-resolved", p + " in " + root + " becomes " + hart::toAbsolutePath (p));
            cx.saw ("paths");
        }
    }
    cx.need (! hart::isAbsolutePath (""), "empty-path", "the empty path is taken for an absolute path");
    setOptions ({ "--data-root-path", "." });
    cx.need (normal (hart::toAbsolutePath ("x/y.wav")) == normal ("x/y.wav"), "default-root", "x/y.wav becomes " + hart::toAbsolutePath ("x/y.wav"));
}

static void maps (hv::Ctx& cx)
{
    auto& r = cx.rng;
    std::unordered_map<int, double> m;
    std::set<int> have;
    for (int i = (int) r.range (0, 20); i > 0; --i) { const int k = (int) r.range (-10, 10); m[k] = 1; have.insert (k); }
    for (int k = -12; k <= 12; ++k) cx.need (hart::contains (m, k) == (have.count (k) != 0), "contains", hv::cat ("contains (", k, ")"));
    auto p = hart::make_unique<std::pair<int, std::string>> (7, "seven");
    cx.need (p->first == 7 && p->second == "seven", "make-unique", "make_unique() does not forward its arguments");
}

void hv_case (hv::Ctx& cx)
{
    const int kind = (int) cx.rng.range (0, 10);
    switch (kind)
    {
        case 0: decibels<float> (cx); break;
        case 1: decibels<double> (cx); break;
        case 2: phases<float> (cx); break;
        case 3: phases<double> (cx); break;
        case 4: rounding<float> (cx); break;
        case 5: rounding<double> (cx); break;
        case 6: comparing<float> (cx); break;
        case 7: comparing<double> (cx); break;
        case 8: literals (cx); break;
        case 9: paths (cx); break;
        default: maps (cx);
    }
    cx.nontrivial (hv::cat (cx.index, " ", kind));
    if (cx.index < 16) cx.sample (hv::cat ("kind ", kind, ", values from case ", cx.index));
}
