// E01: segmented envelopes follow their curve in real time, at any rate and in any partition,
// restart identically when reset, and copies are independent.
#include "stock.hpp"
using namespace hp;

static bool follow (hv::Ctx& cx, hart::Envelope& e, const EnvSpec& spec, double rate, size_t total, size_t block, const char* when)
{
    auto& r = cx.rng;
    double lo = spec.start, hi = spec.start;
    for (auto& s : spec.segs) { lo = std::min (lo, s.target); hi = std::max (hi, s.target); }
    const double slack = 1e-9 * (1 + std::abs (lo) + std::abs (hi));
    size_t k = 0;
    std::vector<double> reused;
    for (size_t n : hv::genPartition (r, total, block))
    {
        std::vector<double> v;
        switch ((int) r.range (0, 3))
        {
            case 0: v = e.renderNextBlock (n); break;
            case 1: v.assign (n, 777.0); e.renderNextBlock (n, v); break;
            case 2: reused.resize (n); e.renderNextBlock (n, reused); v = reused; break;
            default: v.assign (n, -777.0); e.renderNextBlock (n, v);
        }
        if (v.size() != n) { cx.viol ("size", hv::cat (when, ": ", v.size(), " values for a block of ", n)); return false; }
        for (size_t i = 0; i < n; ++i, ++k)
        {
            if (! (v[i] >= lo - slack && v[i] <= hi + slack)) { cx.viol ("range", hv::cat (when, ": frame ", k, " has ", v[i], ", outside of ", lo, "..", hi)); return false; }
            if (! spec.matches (k, rate, v[i])) { cx.viol ("curve", hv::cat (when, ": frame ", k, " at ", rate, " Hz has ", v[i], ", the curve is at ", spec.at ((double) (k + 1) / rate))); return false; }
        }
        cx.saw ("values", n);
    }
    return true;
}

/// values of an envelope made of exact steps tell precisely how long its segments are
static void exactSteps (hv::Ctx& cx)
{
    auto& r = cx.rng;
    // a power of two makes all times exact
    const double rate = std::pow (2.0, (double) r.range (8, 17));
    EnvSpec spec;
    spec.start = (double) r.range (-50, 50);
    std::vector<double> want;
    double level = spec.start;
    const int n = (int) r.range (1, 8);
    std::vector<std::pair<size_t, double>> steps;
    for (int i = 0; i < n; ++i)
    {
        const size_t frames = (size_t) r.range (0, 60);
        spec.segs.push_back ({ (double) frames / rate, level, 0, true });
        steps.push_back ({ frames, level });
        const double next = (double) r.range (-50, 50);
        const size_t rf = r.chance (0.6) ? 0 : (size_t) r.range (1, 16);
        spec.segs.push_back ({ (double) rf / rate, next, 0, false });
        level = next;
    }
    const double total = spec.total() * rate;
    auto e = spec.make();
    e.prepare (rate, 64);
    cx.describe = hv::cat ("exact ", rate, " ", spec.str());
    cx.nontrivial (cx.describe);
    for (int run = 0; run < 2; ++run)
    {
        e.reset();
        const auto v = static_cast<hart::Envelope&> (e).renderNextBlock ((size_t) total + 20);
        for (size_t k = 0; k < v.size(); ++k)
        {
            const double w = spec.at ((double) (k + 1) / rate);
            if (std::abs (v[k] - w) > 1e-9) { cx.viol ("exact-curve", hv::cat ("run ", run, " frame ", k, ": ", v[k], ", want ", w)); return; }
        }
    }
    cx.saw ("exact curves");
}

void hv_case (hv::Ctx& cx)
{
    auto& r = cx.rng;
    if (cx.index == 0)
    {
        // an exponential ramp from zero, or through it, is not a number
        struct { double a, b; const char* key; } probes[] = { { 0, 1, "exponential-from-zero" }, { -1, 1, "exponential-through-zero" }, { 1, -1, "exponential-through-zero" } };
        for (auto& p : probes)
        {
            hart::SegmentedEnvelope e (p.a);
            e.rampTo (p.b, 0.01, hart::SegmentedEnvelope::Shape::exponential);
            e.prepare (44100, 64);
            for (double v : static_cast<hart::Envelope&> (e).renderNextBlock (64))
                if (! (v >= std::min (p.a, p.b) && v <= std::max (p.a, p.b))) { cx.viol (p.key, hv::cat ("an exponential ramp from ", p.a, " to ", p.b, " has the value ", v)); break; }
        }
        return;
    }
    if (r.chance (0.15)) { exactSteps (cx); return; }
    if (r.chance (0.02))
    {
        hart::SegmentedEnvelope e (r.uni (-1, 1));
        for (double bad : { 0.0, -1.0, -44100.0 })
        {
            const auto o = observe ([&] { e.prepare (bad, 64); });
            cx.need (o.errorType == "Value", "bad-rate", hv::cat ("preparing for a rate of ", bad, " gave ", o.threw ? o.errorType : std::string ("no error")));
        }
        cx.saw ("bad rates");
        return;
    }
    double rate = hv::genRate (r);
    size_t total = hv::genSize (r, r.chance (0.05) ? 60000 : 3000);
    const bool wide = r.chance (0.3), positive = r.chance (0.5);
    EnvSpec spec = genEnv (r, (double) total / rate, positive, wide ? (positive ? 1e-3 : -1e4) : (positive ? 0.01 : -20), wide ? 1e4 : 20, 10);
    cx.describe = hv::cat (rate, " Hz ", total, " frames ", spec.str());
    cx.nontrivial (cx.describe);
    if (cx.index % 900 == 0) cx.sample (cx.describe);
    bool hasExp = false, hasS = false;
    for (auto& s : spec.segs) { hasExp |= ! s.hold && s.shape == 1 && s.target > 0; hasS |= ! s.hold && s.shape == 2; if (s.dur == 0) cx.saw ("empty segments"); }
    if (hasExp) cx.saw ("exponential");
    if (hasS) cx.saw ("s-curves");
    if (spec.segs.empty()) cx.saw ("without segments");
    auto e = spec.make();
    const size_t block = hv::genSize (r, 4096);
    const bool prepared = rate != 44100 || r.chance (0.7);
    if (prepared) e.prepare (rate, block);
    if (! follow (cx, e, spec, rate, total, block, "first run")) return;
    const int ops = (int) r.range (1, 5);
    for (int i = 0; i < ops; ++i)
    {
        const size_t n = (size_t) r.range (1, (int64_t) total + 10);
        switch ((int) r.range (0, 4))
        {
            case 0:
                e.reset();
                if (! follow (cx, e, spec, rate, n, block, "after a reset")) return;
                cx.saw ("resets");
                break;
            case 1:
            {
                rate = hv::genRate (r);
                if (r.chance (0.5)) { e.prepare (rate, block); e.reset(); } else { e.reset(); e.prepare (rate, block); }
                if (! follow (cx, e, spec, rate, std::min<size_t> (n, 2000), block, "after preparing again")) return;
                cx.saw ("prepared again");
                break;
            }
            case 2:
            {
                auto c = e.copy();
                c->reset();
                if (! follow (cx, *c, spec, rate, n, block, "copy")) return;
                // the original goes its own way
                e.reset();
                c->renderNextBlock (3);
                if (! follow (cx, e, spec, rate, n, block, "original of a copy")) return;
                cx.saw ("copies");
                break;
            }
            case 3:
            if (r.chance (0.4))
            {
                // an envelope can be extended after it has been used
                EnvSpec::Seg h { (double) r.range (0, 20) / rate, spec.segs.empty() ? spec.start : spec.segs.back().target, 0, true }, p { (double) r.range (0, 40) / rate, spec.start + r.uni (-2, 2), 0, false };
                if (r.chance (0.7)) { e.hold (h.dur); spec.segs.push_back (h); }
                if (r.chance (0.7)) { e.rampTo (p.target, p.dur); spec.segs.push_back (p); }
                e.reset();
                if (! follow (cx, e, spec, rate, n, block, "extended after use")) return;
                cx.saw ("extended after use");
                break;
            }
            else
            {
                // a copy that is extended does not extend the original
                hart::SegmentedEnvelope longer (spec.make());
                hart::SegmentedEnvelope base (longer);
                EnvSpec s2 = spec;
                s2.segs.push_back ({ (double) r.range (0, 20) / rate, spec.segs.empty() ? spec.start : spec.segs.back().target, 0, true });
                longer.hold (s2.segs.back().dur);
                s2.segs.push_back ({ (double) r.range (0, 40) / rate, spec.start + 1.5, 0, false });
                longer.rampTo (s2.segs.back().target, s2.segs.back().dur);
                base.prepare (rate, block);
                longer.prepare (rate, block);
                if (! follow (cx, base, spec, rate, n, block, "original of an extended copy")) return;
                if (! follow (cx, longer, s2, rate, n, block, "extended copy")) return;
                cx.saw ("extended copies");
                break;
            }
            default:
            {
                auto c = e.copy();
                static_cast<hart::Envelope&> (e).renderNextBlock ((size_t) r.range (1, 50));
                c->reset();
                auto c2 = c->copy();
                c.reset();
                if (! follow (cx, *c2, spec, rate, n, block, "copy of a destroyed copy")) return;
                cx.saw ("copies");
            }
        }
    }
    // far beyond the end, the last value stays
    if (rate > 50)
    {
        e.reset();
        const size_t far = std::min<size_t> (300000, (size_t) (spec.total() * rate) + 100);
        std::vector<double> v;
        for (size_t done = 0; done < far; done += 4096) v = static_cast<hart::Envelope&> (e).renderNextBlock (4096);
        const double last = spec.segs.empty() ? spec.start : spec.segs.back().target;
        if ((size_t) (spec.total() * rate) + 100 <= far) { for (double x : static_cast<hart::Envelope&> (e).renderNextBlock (20)) cx.need (std::abs (x - last) <= 1e-9 * (1 + std::abs (last)), "last-value", hv::cat ("after its end the envelope has ", x, " instead of ", last)); cx.saw ("ends"); }
    }
}
