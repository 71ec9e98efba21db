// S04: sine sweeps follow the configured frequency course, compared with an independent model.
#include "stock.hpp"
using namespace hp;

struct Sweep
{
    double dur = 1, f0 = 20, f1 = 20e3, phase = 0;
    bool log = true, loop = false;
    template <typename T> hart::SineSweep<T> make() const
    {
        using S = hart::SineSweep<T>;
        return S (dur, f0, f1, log ? S::SweepType::log : S::SweepType::linear, loop ? S::Loop::yes : S::Loop::no, phase);
    }
    std::string str() const { return hv::cat ("SineSweep (", dur, ", ", f0, ", ", f1, log ? ", log" : ", linear", loop ? ", loop" : ", once", ", ", phase, ")"); }

    /// values of `frames` frames, with how exactly each can be known; `edge` shifts the turning points by that many frames
    std::vector<double> model (double rate, size_t frames) const
    {
        std::vector<double> v (frames, 0.0);
        const size_t n = (size_t) (dur * rate + 0.5);
        if (dur < 1e-8 || n == 0) return v;
        double ph = std::fmod (phase, 2 * hart::pi);
        bool reverse = false;
        size_t pos = 0;
        for (size_t k = 0; k < frames; ++k)
        {
            v[k] = std::sin (ph);
            if (++pos == n)
            {
                if (! loop) break;
                pos = 0;
                reverse = ! reverse;
            }
            double portion = ((double) pos / rate) / dur;
            if (reverse) portion = 1 - portion;
            const double f = log ? f0 * std::pow (f1 / f0, portion) : f0 + (f1 - f0) * portion;
            ph = std::fmod (ph + 2 * hart::pi * f / rate, 2 * hart::pi);
        }
        return v;
    }
};

static Sweep genSweep (hv::Rng& r, double rate, size_t frames)
{
    Sweep s;
    const double hi = rate * (r.chance (0.06) ? 3.0 : 0.5);  // nothing forbids frequencies that alias
    auto freq = [&] { return r.chance (0.2) ? r.uni (hi * 0.01, hi) : std::exp (r.uni (std::log (hi * 1e-4), std::log (hi))); };
    s.f0 = freq();
    s.f1 = r.chance (0.12) ? s.f0 : freq();
    const int dm = (int) r.range (0, 6);
    const double whole = (double) frames / rate;
    if (dm == 0) s.dur = whole;
    else if (dm == 1) s.dur = (double) r.range (1, (int64_t) std::max<size_t> (1, frames)) / rate;
    else if (dm == 2) s.dur = r.uni (0, 3.0) / rate;
    else if (dm == 3 && r.chance (0.3)) s.dur = 0;
    else s.dur = whole * r.uni (0.05, 2.5);
    s.phase = r.chance (0.4) ? 0 : r.chance (0.7) ? r.uni (-7, 7) : r.uni (-1000, 1000);
    s.log = r.chance (0.5);
    s.loop = r.chance (0.5);
    return s;
}

/// durations whose rounding to frames is a matter of taste, or that are nearly nothing
static bool borderline (const Sweep& s, double rate)
{
    const double x = s.dur * rate, frac = x - std::floor (x);
    return std::abs (frac - 0.5) < 1e-6 || (s.dur != 0 && s.dur < 2e-8) || (s.f0 != s.f1 && std::abs (s.f0 - s.f1) < 1e-6);
}

template <typename T> static Planes<T> render (hart::SineSweep<T>& s, hv::Rng& r, double rate, size_t channels, size_t frames, size_t block)
{
    start<T> (s, rate, channels, block);
    return renderAll<T> (s, channels, hv::genPartition (r, frames, block));
}

template <typename T> static void compare (hv::Ctx& cx, const Planes<T>& got, const Sweep& s, double rate, const char* what)
{
    const size_t frames = got[0].size();
    const auto want = s.model (rate, frames);
    const size_t n = (size_t) (s.dur * rate + 0.5);
    for (size_t k = 0; k < frames; ++k)
    {
        const double tol = 2e-5 + 2e-8 * (double) k;
        for (size_t c = 0; c < got.size(); ++c)
        {
            const double g = (double) got[c][k];
            if (! s.loop && k >= n && g != 0)
            {
                cx.viol (hv::cat (what, ":not-silent-after"), hv::cat (s.str(), " frame ", k, " after the ", n, " frames of the sweep is ", g));
                return;
            }
            if (! (std::abs (g - want[k]) <= tol))
            {
                cx.viol (hv::cat (what, s.loop ? ":loop" : ":once", s.log ? ":log" : ":linear"), hv::cat (s.str(), " channel ", c, " frame ", k, ": got ", g, ", want ", want[k]));
                return;
            }
        }
    }
    cx.saw ("samples compared", frames * got.size());
}

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    using S = hart::SineSweep<T>;
    const double rate = hv::genRate (r);
    const size_t channels = r.chance (0.9) ? (size_t) r.range (1, 3) : hv::genChannels (r, 128);
    const size_t longest = cx.thorough && r.chance (0.01) ? 300000 : r.chance (0.08) ? 20000 : 1500;
    const size_t frames = hv::genSize (r, std::max<size_t> (2, longest / channels)), block = hv::genSize (r, 4096);
    cx.describe = hv::cat (hv::typeTag<T>(), " rate=", rate, " channels=", channels, " frames=", frames, " block=", block);

    const double what = r.uni();
    if (what < 0.08)
    {
        Sweep s = genSweep (r, rate, frames);
        const int bad = (int) r.range (0, 2);
        if (bad == 0) s.dur = r.pick<double> ({ -1, -1e-9, -1e-300, -hart::inf, hart::inf, std::nan (""), -r.uni (0, 10) });
        else (bad == 1 ? s.f0 : s.f1) = r.pick<double> ({ 0, -0.0, -1, -1e-9, -20e3, -hart::inf, std::nan (""), -r.uni (0, 1000) });
        cx.describe += " " + s.str();
        cx.nontrivial (cx.describe);
        const auto o = observe ([&] { s.make<T>(); });
        cx.need (o.errorType == "Value", hv::cat ("invalid-accepted:", bad), s.str() + " gave no value error");
        // the variants refuse the same values
        const auto o2 = observe ([&]
        {
            S ok;
            if (bad == 0) ok.withDuration (s.dur);
            else if (bad == 1) ok.withStartFrequency (s.f0);
            else ok.withEndFrequency (s.f1);
        });
        cx.need (o2.errorType == "Value", hv::cat ("invalid-variant-accepted:", bad), s.str() + " gave no value error through its with-variant");
        cx.saw ("invalid settings");
        return;
    }
    Sweep s = genSweep (r, rate, frames);
    if (r.chance (0.03)) s = Sweep();  // the documented defaults
    if (borderline (s, rate)) s.dur = 3.0 / rate, s.f1 = s.f0;
    cx.describe += " " + s.str();
    cx.nontrivial (cx.describe);
    if (cx.index % 300 == 0) cx.sample (cx.describe);

    S sweep = s.make<T>();
    if (what < 0.5)
    {
        compare<T> (cx, render (sweep, r, rate, channels, frames, block), s, rate, "sweep");
        // and again at another rate, on the same instance
        const double rate2 = hv::genRate (r);
        if (! borderline (s, rate2)) compare<T> (cx, render (sweep, r, rate2, 1, std::min<size_t> (frames, 500), block), s, rate2, "sweep-other-rate");
        cx.saw ("sweeps");
        cx.saw (hv::cat (s.f0 < s.f1 ? "up " : s.f0 > s.f1 ? "down " : "fixed ", s.log ? "log" : "linear"));
        const size_t n = (size_t) (s.dur * rate + 0.5);
        if (s.loop && n > 0 && frames > n) cx.saw ("turned around");
        if (s.loop && n > 0 && frames > 2 * n) cx.saw ("turned around twice");
        if (! s.loop && frames > n) cx.saw ("ended");
        if (n == 0) cx.saw ("zero duration");
        return;
    }
    // with-style variants change the setting they name and nothing else; a few in a row
    const int steps = (int) r.range (1, 4);
    std::unique_ptr<S> cur (new S (sweep));
    Sweep m = s;
    std::string names;
    for (int i = 0; i < steps; ++i)
    {
        Sweep o = genSweep (r, rate, frames);
        Sweep before = m;
        std::unique_ptr<S> next;
        const int k = (int) r.range (0, 5);
        if (r.chance (0.3)) { start<T> (*cur, rate, 1, block); renderAll<T> (*cur, 1, { std::min<size_t> (block, 7) }); }  // state must not leak
        switch (k)
        {
            case 0: m.dur = o.dur; next.reset (new S (cur->withDuration (o.dur))); break;
            case 1: m.f0 = o.f0; next.reset (new S (cur->withStartFrequency (o.f0))); break;
            case 2: m.f1 = o.f1; next.reset (new S (cur->withEndFrequency (o.f1))); break;
            case 3: m.log = o.log; next.reset (new S (cur->withType (o.log ? S::SweepType::log : S::SweepType::linear))); break;
            case 4: m.loop = o.loop; next.reset (new S (cur->withLoop (o.loop ? S::Loop::yes : S::Loop::no))); break;
            default: m.phase = o.phase; next.reset (new S (cur->withPhase (o.phase)));
        }
        names += hv::cat (" with", k);
        if (borderline (m, rate)) return;
        // the original stays what it was
        compare<T> (cx, render (*cur, r, rate, 1, std::min<size_t> (frames, 400), block), before, rate, "original-of-variant");
        cur = std::move (next);
        cx.saw ("variants");
    }
    cx.describe += names;
    compare<T> (cx, render (*cur, r, rate, channels, frames, block), m, rate, "variant");
}

void hv_case (hv::Ctx& cx)
{
    if (cx.rng.chance (0.5)) run<float> (cx); else run<double> (cx);
}
