// D01: gain effects multiply by exactly the configured or automated gain. Audio is pushed through
// GainDb and GainLinear directly, in place, through DSP::processWithEnvelopes and through a whole
// run; every output sample is compared with input x gain.
#include "stock.hpp"
using namespace hp;

struct GainModel
{
    bool db = false;
    double value = 0;            // as set last
    double ratio() const { return ratioOf (value); }
    double ratioOf (double v) const
    {
        if (! db) return v;
        return v < -120 ? 0.0 : std::pow (10.0, v / 20.0);
    }
};

template <typename T> static double tolOf() { return sizeof (T) == 4 ? 5e-7 : 1e-12; }

template <typename T> static std::string judge (T in, T out, double gain, bool nearFloor)
{
    const double i = (double) in, o = (double) out;
    if (std::isnan (i)) return std::isnan (o) ? "" : hv::cat ("NaN became ", o);
    if (std::isinf (i) && gain == 0) return "";
    double want = i * gain;
    if (std::isinf (i)) return o == want ? "" : hv::cat (i, " x ", gain, " became ", o);
    if (std::abs (want) > 0.99 * (double) std::numeric_limits<T>::max()) return "";
    if (nearFloor && std::abs (o) <= std::abs (want) * 1.001) return "";  // either side of the floor
    const double tiny = (double) std::numeric_limits<T>::min();
    const double tol = std::abs (want) * tolOf<T>() + tiny * (std::abs (i) + 1);
    if (std::abs (o - want) <= tol) return "";
    return hv::cat (i, " x ", gain, " = ", want, " became ", o);
}

static double genGain (hv::Rng& r, bool db)
{
    if (db)
    {
        if (r.chance (0.08)) return -hart::inf;
        if (r.chance (0.08)) return r.pick<double> ({ -120.001, -121.0, -200.0, -1e9, -119.999, -120.0 });
        if (r.chance (0.2)) return r.pick<double> ({ 0.0, -6.0, 6.0, -3.0, -1.0, -100.0, 20.0, 0.1 });
        if (r.chance (0.06)) return r.uni (40, 700);
        return r.uni (-125, 40);
    }
    if (r.chance (0.3)) return r.pick<double> ({ 0.0, 1.0, -1.0, 0.5, -0.0, 2.0, 1e-9, -1e-9, 1e5, 0.1 });
    if (r.chance (0.08)) return std::exp (r.uni (-60, 60)) * (r.chance (0.5) ? 1 : -1);
    return r.uni (-4, 4);
}

template <typename T> static T genSample (hv::Rng& r, int mode)
{
    if (mode == 1 && r.chance (0.1))
        return r.pick<T> ({ std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
                            std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::min(), std::numeric_limits<T>::max() / (T) 1e8, (T) 0, (T) -0.0 });
    if (mode == 2) return (T) std::exp (r.uni (-25, 8)) * (r.chance (0.5) ? (T) 1 : (T) -1);
    return (T) r.uni (-1, 1);
}

template <typename T, typename G> static void direct (hv::Ctx& cx, GainModel m)
{
    auto& r = cx.rng;
    const size_t out = hv::genChannels (r), in = r.chance (0.6) ? out : 1;
    const size_t block = hv::genSize (r, std::max<size_t> (4, 6000 / std::max (in, out)));
    const size_t total = (size_t) r.range (1, (int64_t) std::max<size_t> (2, std::min<size_t> (block * 4, 20000 / std::max (in, out))));
    const int mode = (int) r.range (0, 2);
    const bool automated = r.chance (0.4), inPlace = in == out && r.chance (0.4), viaHost = automated || r.chance (0.5);
    m.value = genGain (r, m.db);
    G effect = r.chance (0.1) ? G() : G (m.value);
    if (r.chance (0.5)) effect.setValue (0, m.value);
    else effect = G (m.value);
    std::vector<double> table;
    if (automated)
    {
        const int shape = (int) r.range (0, 3);
        const double slope = std::pow (10.0, r.uni (-7, -3)) * r.pick ({ -1.0, 1.0 });
        double v = shape == 3 ? r.uni (-20, 20) : genGain (r, m.db);
        for (size_t i = 0; i < total; ++i)
        {
            if (shape == 0 || (shape < 3 && r.chance (0.02))) v = genGain (r, m.db);
            if (shape == 3) v += slope;
            if (shape == 2) v += 0.001;
            table.push_back (v);
        }
        effect.withEnvelope (0, TableEnvelope (table));
    }
    cx.describe = hv::cat (hv::typeTag<T>(), m.db ? " GainDb " : " GainLinear ", m.value, automated ? " automated" : "", inPlace ? " in place" : "", viaHost ? " hosted" : "", " ", in, "->", out, " block ", block, " frames ", total, " mode ", mode);
    cx.nontrivial (cx.describe);
    if (cx.index % 700 == 0) cx.sample (cx.describe);
    if (r.chance (0.3))
    {
        // another instance must not be affected, nor affect this one
        auto twin = effect.copy();
        twin->setValue (0, m.value + 3.5);
        if (r.chance (0.5)) { auto moved = twin->move(); moved->setValue (0, m.value - 2); }
    }
    std::unique_ptr<hart::DSP<T>> used;
    const int how = (int) r.range (0, 3);
    if (how == 0) used = effect.copy();
    else if (how == 1) used = effect.move();
    else if (how == 2) used.reset (new G (effect));
    else { G* other = new G (genGain (r, m.db)); *other = effect; used.reset (other); }
    cx.need (used->supportsChannelLayout (in, out), "layout-refused", "a documented layout is declared unsupported");
    const int runs = (int) r.range (1, 2);
    for (int run = 0; run < runs; ++run)
    {
        if (viaHost) { used->resetWithEnvelopes(); used->prepareWithEnvelopes (hv::genRate (r), in, out, block); }
        else { used->reset(); used->prepare (hv::genRate (r), in, out, block); }
        if (run == 1 && r.chance (0.5)) { m.value = genGain (r, m.db); used->setValue (0, m.value); }
        if (r.chance (0.3)) for (int id : { 1, -1, 7, 1000, -2147483647 }) used->setValue (id, 0.123);
        size_t at = 0;
        for (size_t n : hv::genPartition (r, total, block))
        {
            if (! automated && r.chance (0.1)) { m.value = genGain (r, m.db); used->setValue (0, m.value); }
            auto planes = Planes<T> (in, std::vector<T> (n));
            for (auto& c : planes) for (auto& v : c) v = genSample<T> (r, mode);
            hart::AudioBuffer<T> a = bufferOf (planes), o (out, n);
            for (size_t c = 0; c < out; ++c) for (size_t f = 0; f < n; ++f) o[c][f] = sentinel<T>();
            hart::AudioBuffer<T>& dst = inPlace ? a : o;
            if (viaHost) used->processWithEnvelopes (a, dst);
            else
            {
                hart::EnvelopeBuffers env;
                if (r.chance (0.3)) env[5] = std::vector<double> (n, 0.25);
                used->process (a, dst, env);
            }
            cx.need (dst.getNumChannels() == out && dst.getNumFrames() == n, "resized", "the output buffer has been resized");
            for (size_t c = 0; c < out; ++c)
                for (size_t f = 0; f < n; ++f)
                {
                    const double gv = automated ? table[std::min (table.size() - 1, at + f)] : m.value;
                    const std::string bad = judge<T> (planes[in == 1 ? 0 : c][f], dst[c][f], m.ratioOf (gv), m.db && std::abs (gv + 120) < 1e-6);
                    if (! bad.empty())
                    {
                        cx.viol (automated ? "automated-gain" : "gain", hv::cat ("run ", run, " channel ", c, " frame ", at + f, ": ", bad));
                        return;
                    }
                }
            if (! inPlace) cx.need (diff (planesOf (a), planes, 0).empty(), "input-changed", "the input buffer has been changed");
            at += n;
            cx.saw ("samples", out * n);
        }
    }
    cx.saw (automated ? "automated" : "constant");
    if (inPlace) cx.saw ("in place");
    if (in != out) cx.saw ("mono to many");
}

template <typename T, typename G> static void accessors (hv::Ctx& cx, GainModel m)
{
    auto& r = cx.rng;
    m.value = genGain (r, m.db);
    G g (m.value);
    cx.describe = hv::cat (hv::typeTag<T>(), m.db ? " GainDb" : " GainLinear", " accessors ", m.value);
    cx.nontrivial (cx.describe);
    auto readBack = [&] (hart::DSP<T>& d, const char* when)
    {
        const double got = d.getValue (0);
        const double want = m.db ? std::max (m.value, -120.0) : m.value;
        const bool ok = std::abs (got - want) <= 1e-9 * (1 + std::abs (want)) || (m.db && m.value <= -119.999 && (std::abs (got + 120) < 1e-3 || got <= m.value + 1e-9));
        cx.need (ok, "read-back", hv::cat (when, ": set ", m.value, ", read back ", got));
        cx.saw ("read back");
    };
    readBack (g, "constructor");
    m.value = genGain (r, m.db);
    g.setValue (0, m.value);
    readBack (g, "setValue");
    for (int i = 0; i < 4; ++i) g.setValue ((int) r.range (1, 100000) * (r.chance (0.5) ? 1 : -1), r.uni (-3, 3));
    readBack (g, "after setting unknown parameters");
    auto c = g.copy();
    readBack (*c, "copy");
    c->setValue (0, 0.25);
    readBack (g, "after setting the copy");
    g.reset();
    g.prepare (48000, 2, 2, 64);
    readBack (g, "after reset and prepare");
    auto mv = g.move();
    readBack (*mv, "move");
    for (int i = 0; i < 40; ++i)
    {
        const size_t a = hv::genChannels (r), b = hv::genChannels (r);
        cx.need (mv->supportsChannelLayout (a, b) == (a == b || a == 1), "layout", hv::cat ("support of ", a, " inputs and ", b, " outputs is declared wrongly"));
        if (! (a == b || a == 1))
        {
            hart::AudioBuffer<T> x (a, 3), y (b, 3);
            for (size_t k = 0; k < b; ++k) for (int f = 0; f < 3; ++f) y[k][f] = (T) 7;
            const auto o = observe ([&] { mv->process (x, y, {}); });
            cx.need (o.errorType == "ChannelLayout", "unsupported-processed", "processing an unsupported layout gave " + (o.threw ? o.errorType : std::string ("no error")));
            cx.saw ("unsupported layouts");
        }
    }
    cx.need (mv->supportsEnvelopeFor (0), "not-automatable", "the gain cannot be automated");
    for (int id : { 1, 2, -1, 100, (int) r.range (1, 1000000) }) cx.need (! mv->supportsEnvelopeFor (id), "automatable", hv::cat ("parameter ", id, " is declared automatable"));
    cx.need (mv->supportsSampleRate (hv::genRate (r)), "rate", "a sample rate is declared unsupported");
}

/// a whole run; the values given to the builder
template <typename T, typename G> static void hosted (hv::Ctx& cx, GainModel m)
{
    auto& r = cx.rng;
    auto c = genConfig<T> (r, 20000, true);
    if (r.chance (0.4)) c.in = 1;
    if (c.frames == 0) return;
    m.value = genGain (r, m.db);
    G g (m.value);
    const bool automated = r.chance (0.3);
    std::vector<double> table;
    if (automated)
    {
        for (size_t i = 0; i < c.frames; ++i) table.push_back (genGain (r, m.db));
        g.withEnvelope (0, TableEnvelope (table));
    }
    cx.describe = c.str() + hv::cat (m.db ? " GainDb " : " GainLinear ", m.value, automated ? " automated" : "");
    cx.nontrivial (cx.describe);
    hart::AudioTestBuilder<T> b (g);
    b.withSampleRate (c.rate).withBlockSize (c.block).withDuration (c.duration).withInputChannels (c.in).withOutputChannels (c.out);
    const IndexSignal<T> input (newLog<T>(), r.u64() % 10000);
    b.withInputSignal (input);
    for (int i = (int) r.range (0, 3); i > 0; --i)
    {
        if (r.chance (0.3)) { b.withValue ((int) r.range (1, 9), 0.1); continue; }
        m.value = genGain (r, m.db);
        b.withValue (0, m.value);
    }
    ProbeMatcher<T> probe;
    b.expectTrue (probe);
    const auto o = observe ([&] { b.process(); });
    cx.need (! o.threw, "run-error", o.error);
    if (o.threw) return;
    const auto& seen = probe.log->seen;
    for (size_t k = 0; k < c.out; ++k)
        for (size_t f = 0; f < c.frames; ++f)
        {
            const double gv = automated ? table[f] : m.value;
            if (k >= seen.size() || f >= seen[k].size()) { cx.viol ("short", "the output is too short"); return; }
            const std::string bad = judge<T> (indexValue<T> (c.in == 1 ? 0 : k, f, c.in, input.salt), seen[k][f], m.ratioOf (gv), m.db && std::abs (gv + 120) < 1e-6);
            if (! bad.empty()) { cx.viol (automated ? "run:automated-gain" : "run:gain", hv::cat ("channel ", k, " frame ", f, ": ", bad)); return; }
        }
    cx.saw ("samples", c.out * c.frames);
    cx.saw ("hosted runs");
}

template <typename T, typename G> static void any (hv::Ctx& cx, GainModel m)
{
    const double p = cx.rng.uni();
    if (p < 0.6) direct<T, G> (cx, m);
    else if (p < 0.75) accessors<T, G> (cx, m);
    else hosted<T, G> (cx, m);
}

void hv_case (hv::Ctx& cx)
{
    GainModel m;
    m.db = cx.rng.chance (0.5);
    if (cx.rng.chance (0.5)) { if (m.db) any<float, hart::GainDb<float>> (cx, m); else any<float, hart::GainLinear<float>> (cx, m); }
    else { if (m.db) any<double, hart::GainDb<double>> (cx, m); else any<double, hart::GainLinear<double>> (cx, m); }
}
