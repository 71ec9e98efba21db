// M02: the peak checks judge the true sample peak over all channels.
#include "stock.hpp"
using namespace hp;

static double ratioOf (double db) { return db < -120 ? 0.0 : std::pow (10.0, db / 20.0); }

template <typename T> struct Scene
{
    bool at = false;              // PeaksAt, else PeaksBelow
    bool exact = false, defaultTol = false;
    double db = 0, tol = 1e-3, level = 1;
    double slack() const { return exact || (level == 0 && tol == 0) ? 0.0 : (sizeof (T) == 4 ? 3e-6 : 1e-12) * (level + tol) + 1e-18; }
    std::unique_ptr<hart::Matcher<T>> make() const
    {
        using M = std::unique_ptr<hart::Matcher<T>>;
        if (at) return defaultTol ? M (new hart::PeaksAt<T> (db)) : M (new hart::PeaksAt<T> (db, tol));
        return defaultTol ? M (new hart::PeaksBelow<T> (db)) : M (new hart::PeaksBelow<T> (db, tol));
    }
    /// 1 acceptable, 0 not, -1 too close to call
    int verdict (const Planes<T>& p, size_t from, size_t n) const
    {
        double peak = 0;
        for (auto& c : p) for (size_t f = from; f < from + n; ++f) { if (std::isnan (c[f])) return 0; peak = std::max (peak, std::abs ((double) c[f])); }
        if (std::isinf (peak)) return 0;
        const double over = at ? std::abs (peak - level) : peak - level;
        if (over == 0 && level == 0) return 1;
        if (over <= tol - slack()) return 1;
        if (over > tol + slack()) return 0;
        return exact ? 1 : -1;
    }
    /// whether a rejection may point to this sample
    bool offends (const Planes<T>& p, size_t from, size_t n, size_t c, size_t f) const
    {
        const double v = (double) p[c][from + f];
        if (std::isnan (v)) return true;
        if (! at) return std::abs (v) > level + tol - slack();
        double peak = 0;
        bool nan = false;
        for (auto& ch : p) for (size_t k = from; k < from + n; ++k) { nan |= std::isnan (ch[k]); if (! std::isnan (ch[k])) peak = std::max (peak, std::abs ((double) ch[k])); }
        return ! nan && std::abs (v) == peak;
    }
};

template <typename T> static Scene<T> genScene (hv::Rng& r)
{
    Scene<T> s;
    s.at = r.chance (0.5);
    s.exact = r.chance (0.4);
    if (s.exact) { s.db = 0; s.level = 1; s.tol = r.chance (0.15) ? 0.0 : std::pow (2.0, -(double) r.range (2, 12)); }
    else
    {
        s.db = r.chance (0.06) ? -hart::inf : r.chance (0.3) ? r.pick<double> ({ -3.0, -6.0, -12.0, -60.0, 0.0, 6.0 }) : r.chance (0.1) ? r.uni (20, 80) : r.uni (-90, 20);
        s.defaultTol = r.chance (0.3);
        s.tol = s.defaultTol ? 1e-3 : r.chance (0.1) ? 0.0 : std::pow (10.0, r.chance (0.15) ? r.uni (-15, -5) : r.chance (0.12) ? r.uni (-0.5, 4) : r.uni (-5, -0.5));
        s.level = ratioOf (s.db);
    }
    return s;
}

template <typename T> static Planes<T> genAudio (hv::Rng& r, const Scene<T>& s, size_t channels, size_t frames)
{
    // everything stays well below, then a few peaks are set
    const double body = r.chance (0.2) ? 0.0 : std::max (0.0, s.level - s.tol) * r.uni (0, 0.95);
    Planes<T> p (channels, std::vector<T> (frames));
    for (auto& c : p) for (auto& v : c) v = (T) r.uni (-body, body);
    const int n = r.chance (0.1) ? 0 : r.chance (0.6) ? 1 : (int) r.range (2, 5);
    for (int i = 0; i < n; ++i)
    {
        const size_t c = r.chance (0.3) ? channels - 1 : (size_t) r.range (0, (int64_t) channels - 1), f = r.chance (0.15) ? frames - 1 : r.chance (0.15) ? 0 : (size_t) r.range (0, (int64_t) frames - 1);
        double v = s.level;
        const double step = s.exact ? std::pow (2.0, -13) : 0.02 * (s.tol + 1e-4 * s.level);
        switch ((int) r.range (0, 9))
        {
            case 0: v = s.level; break;
            case 1: v = s.level + s.tol - (s.exact ? 0 : step); break;
            case 2: v = s.level + s.tol + step; break;
            case 3: v = s.level - s.tol + (s.exact ? 0 : step); break;
            case 4: v = s.level - s.tol - step; break;
            case 5: v = s.level * 2 + 1; break;
            case 6: v = s.level * r.uni (0, 2); if (s.exact) v = std::floor (v * 4096) / 4096; break;
            case 9: v = std::pow (10.0, r.uni (-30, -5)); break;
            case 7: if (r.chance (0.5)) v = std::numeric_limits<double>::quiet_NaN(); break;
            default: if (r.chance (0.5)) v = std::numeric_limits<double>::infinity();
        }
        p[c][f] = (T) (r.chance (0.5) ? v : -v);
    }
    return p;
}

template <typename T> static bool judge (hv::Ctx& cx, hart::Matcher<T>& m, const Scene<T>& s, const Planes<T>& p, size_t from, size_t n, const Decimals& dec, const char* when)
{
    hart::AudioBuffer<T> b (p.size(), n);
    double peak = 0;
    bool nan = false;
    for (size_t c = 0; c < p.size(); ++c) for (size_t f = 0; f < n; ++f) { b[c][f] = p[c][from + f]; nan |= std::isnan (b[c][f]); peak = std::max (peak, std::abs ((double) b[c][f])); }
    const int want = s.verdict (p, from, n);
    const bool ok = m.match (b);
    cx.saw (s.at ? (ok ? "peaks-at accepted" : "peaks-at rejected") : (ok ? "peaks-below accepted" : "peaks-below rejected"));
    if (nan) cx.saw ("audio with NaNs");
    if (want >= 0 && ok != (want == 1))
    {
        cx.viol (hv::cat (s.at ? "peaks-at" : "peaks-below", ok ? ":accepted" : ":rejected", nan ? ":nan" : ""), hv::cat (when, ": audio with a peak of ", nan ? hart::inf * 0 : peak, ok ? " was accepted" : " was rejected", ", level ", s.level, " tolerance ", s.tol));
        return false;
    }
    if (want == 0 && ! ok)
    {
        const auto d = m.getFailureDetails();
        if (d.channel >= p.size() || d.frame >= n) { cx.viol ("position-range", hv::cat (when, ": failure at channel ", d.channel, " frame ", d.frame, " of ", p.size(), " channels and ", n, " frames")); return false; }
        if (! s.offends (p, from, n, d.channel, d.frame))
        {
            cx.viol (s.at ? "peaks-at:position" : "peaks-below:position", hv::cat (when, ": failure reported at channel ", d.channel, " frame ", d.frame, " with the sample ", (double) p[d.channel][from + d.frame], ", the peak is ", peak));
            return false;
        }
        const double v = (double) p[d.channel][from + d.frame];
        const auto& t = d.description;
        const auto e = t.rfind (" dB");
        const auto a = e == std::string::npos ? e : t.rfind (' ', e - 1);
        if (a == std::string::npos) { cx.viol ("description", "no level is described: " + t); return false; }
        if (! shows (t.substr (a + 1, e - a - 1), std::isfinite (v) ? dbOf (v) : std::abs (v), dec.db, dbSlack (v))) { cx.viol ("described-level", hv::cat (when, ": the sample ", v, " of ", dbOf (v), " dB is described as ", t)); return false; }
        cx.saw ("failure details");
    }
    return true;
}

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const auto s = genScene<T> (r);
    const size_t channels = hv::genChannels (r), frames = hv::genSize (r, std::max<size_t> (1, 6000 / channels));
    const auto dec = genDecimals (r);
    setDecimals (dec);
    cx.describe = hv::cat (hv::typeTag<T>(), s.at ? " PeaksAt " : " PeaksBelow ", s.db, " tol ", s.tol, s.exact ? " exact " : " ", channels, " channels ", frames, " frames");
    cx.nontrivial (hv::cat (cx.describe, cx.index));
    if (cx.index % 700 == 0) cx.sample (cx.describe);
    auto m = s.make();
    cx.need (s.at ? ! m->canOperatePerBlock() : true, "per-block", "PeaksAt claims to be able to judge single blocks");
    for (int i = 0; i < 5; ++i)
    {
        if (i == 0 || r.chance (0.5)) m->prepare (hv::genRate (r), channels, frames);
        if (r.chance (0.7)) m->reset();
        if (r.chance (0.3)) m = m->copy();
        else if (r.chance (0.2)) m = m->move();
        else if (r.chance (0.3)) { auto c = m->copy(); hart::AudioBuffer<T> z (2, 3); z[1][2] = (T) 100; c->match (z); }
        const auto p = genAudio (r, s, channels, frames);
        if (s.at || r.chance (0.4)) { if (! judge<T> (cx, *m, s, p, 0, frames, dec, "all at once")) return; }
        else
        {
            size_t at = 0;
            for (size_t n : hv::genPartition (r, frames, frames)) { if (! judge<T> (cx, *m, s, p, at, n, dec, "by block")) return; at += n; }
        }
    }
}

template <typename T> static void hosted (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const auto s = genScene<T> (r);
    auto c = genConfig<T> (r, 20000, true);
    if (c.frames == 0) return;
    const auto p = genAudio (r, s, c.in, c.frames);
    const int want = s.verdict (p, 0, c.frames);
    cx.describe = hv::cat ("run ", c.str(), s.at ? " PeaksAt " : " PeaksBelow ", s.db, " tol ", s.tol);
    cx.nontrivial (hv::cat (cx.describe, cx.index));
    if (want < 0) return;
    const bool positive = r.chance (0.6), asserted = r.chance (0.3);
    RecordingDSP<T> pass;
    pass.keepAudio = false;
    const auto o = observe ([&]
    {
        hart::AudioTestBuilder<T> b (pass);
        b.withSampleRate (c.rate).withBlockSize (c.block).withDuration (c.duration).withInputChannels (c.in).withOutputChannels (c.in).withInputSignal (DataSignal<T> (p));
        auto m = s.make();
        const hart::Matcher<T>& ref = *m;
        if (positive && asserted) b.assertTrue (ref); else if (positive) b.expectTrue (ref); else if (asserted) b.assertFalse (ref); else b.expectFalse (ref);
        b.process();
    });
    const bool failed = o.assertFailed || ! o.expects.empty();
    cx.need (! o.threw || o.assertFailed, "run-error", o.error);
    cx.need (failed == ((want == 1) != positive), "run-verdict", hv::cat (positive ? "True" : "False", asserted ? " assertion" : " expectation", failed ? " failed" : " passed", " for audio to be ", want ? "accepted" : "rejected"));
    cx.saw ("runs");
}

void hv_case (hv::Ctx& cx)
{
    const bool h = cx.rng.chance (0.3);
    if (cx.rng.chance (0.5)) { if (h) hosted<float> (cx); else run<float> (cx); }
    else { if (h) hosted<double> (cx); else run<double> (cx); }
}
