// D02: the hard clipper never exceeds its threshold and leaves quieter audio bit-identical.
#include "stock.hpp"
using namespace hp;

static double genThreshold (hv::Rng& r)
{
    if (r.chance (0.25)) return r.pick<double> ({ 0.0, -6.0, -3.0, 6.0, -120.0, -119.0, 20.0, -1.0 });
    if (r.chance (0.08)) return r.pick<double> ({ -hart::inf, -130.0, -121.0, hart::inf, 400.0 });
    if (r.chance (0.06)) return r.uni (24, 700);
    return r.uni (-119, 24);
}

static double ratioOf (double db) { return db < -120 ? 0.0 : std::pow (10.0, db / 20.0); }

template <typename T> static std::string judge (T in, T out, double threshold)
{
    if (std::isnan (in)) return "";
    if (std::isinf (threshold)) return sameBits (in, out) ? "" : hv::cat ((double) in, " became ", (double) out, " with an infinite threshold");
    const double tol = threshold * (sizeof (T) == 4 ? 3e-7 : 1e-13) + 1e-300;
    const double i = (double) in, o = (double) out;
    if (! (std::abs (o) <= threshold + tol)) return hv::cat (i, " became ", o, ", beyond the threshold ", threshold);
    if (std::abs (i) < threshold - tol)
    {
        if (i == 0 && o == 0) return "";
        return sameBits (in, out) ? "" : hv::cat (i, " is within the threshold ", threshold, ", but became ", o);
    }
    // at or beyond the threshold
    if (std::abs (std::abs (o) - threshold) <= tol && (threshold <= tol || (o < 0) == (i < 0))) return "";
    return hv::cat (i, " became ", o, " with a threshold of ", threshold);
}

template <typename T> static T genSample (hv::Rng& r, double th, int mode)
{
    if (mode == 0) return (T) r.uni (-1, 1);
    if (mode == 1 && r.chance (0.1))
        return r.pick<T> ({ std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
                            std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), -std::numeric_limits<T>::max(), (T) 0, (T) -0.0 });
    // close to the threshold on either side
    if (mode == 2) { T v = (T) (std::isinf (th) ? 1.0 : th); for (int i = (int) r.range (0, 4); i > 0; --i) v = std::nextafter (v, r.chance (0.5) ? (T) 0 : (T) 1e30); return r.chance (0.5) ? v : -v; }
    return (T) (std::min (th, 1e36) * r.uni (-3, 3));
}

template <typename T> static void direct (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const size_t channels = hv::genChannels (r), block = hv::genSize (r, std::max<size_t> (4, 6000 / channels));
    const size_t total = (size_t) r.range (1, (int64_t) std::max<size_t> (2, std::min<size_t> (block * 4, 12000 / channels)));
    const int mode = (int) r.range (0, 3);
    const bool inPlace = r.chance (0.5), viaHost = r.chance (0.5);
    double db = genThreshold (r);
    hart::HardClip<T> clip (db);
    cx.describe = hv::cat (hv::typeTag<T>(), " HardClip ", db, inPlace ? " in place" : "", viaHost ? " hosted" : "", " channels ", channels, " block ", block, " frames ", total, " mode ", mode);
    cx.nontrivial (cx.describe);
    if (cx.index % 700 == 0) cx.sample (cx.describe);
    if (r.chance (0.3)) { auto twin = clip.copy(); twin->setValue (0, db - 7); }
    std::unique_ptr<hart::DSP<T>> used = r.chance (0.5) ? clip.copy() : clip.move();
    for (int run = 0; run < 2; ++run)
    {
        if (viaHost) { used->resetWithEnvelopes(); used->prepareWithEnvelopes (hv::genRate (r), channels, channels, block); }
        else { used->reset(); used->prepare (hv::genRate (r), channels, channels, block); }
        if (r.chance (0.3)) for (int id : { 1, -1, 7, 1000 }) used->setValue (id, -90.0);
        for (size_t n : hv::genPartition (r, total, block))
        {
            if (r.chance (0.1)) { db = genThreshold (r); used->setValue (0, db); }
            const double th = ratioOf (db);
            auto planes = Planes<T> (channels, std::vector<T> (n));
            for (auto& c : planes) for (auto& v : c) v = genSample<T> (r, th, mode);
            hart::AudioBuffer<T> a = bufferOf (planes), o (channels, n);
            for (size_t c = 0; c < channels; ++c) for (size_t f = 0; f < n; ++f) o[c][f] = sentinel<T>();
            auto& dst = inPlace ? a : o;
            if (viaHost) used->processWithEnvelopes (a, dst);
            else used->process (a, dst, {});
            for (size_t c = 0; c < channels; ++c)
                for (size_t f = 0; f < n; ++f)
                {
                    const auto bad = judge<T> (planes[c][f], dst[c][f], th);
                    if (! bad.empty()) { cx.viol ("clip", hv::cat ("channel ", c, " frame ", f, ": ", bad)); return; }
                    if (std::abs (planes[c][f]) > th) cx.saw ("clipped samples"); else cx.saw ("passed samples");
                }
            if (! inPlace) cx.need (diff (planesOf (a), planes, 0).empty(), "input-changed", "the input buffer has been changed");
        }
    }
}

template <typename T> static void accessors (hv::Ctx& cx)
{
    auto& r = cx.rng;
    double db = r.uni (-119, 40);
    hart::HardClip<T> h (db);
    cx.describe = hv::cat (hv::typeTag<T>(), " accessors ", db);
    cx.nontrivial (cx.describe);
    auto readBack = [&] (hart::DSP<T>& d, const char* when)
    {
        const double got = d.getValue (0);
        cx.need (std::abs (got - db) <= 1e-9 * (1 + std::abs (db)), "read-back", hv::cat (when, ": set ", db, ", read back ", got));
        cx.saw ("read back");
    };
    readBack (h, "constructor");
    db = r.uni (-119, 40);
    h.setValue (0, db);
    readBack (h, "setValue");
    for (int i = 0; i < 4; ++i) h.setValue ((int) r.range (1, 100000) * (r.chance (0.5) ? 1 : -1), -50);
    readBack (h, "after setting unknown parameters");
    auto c = h.copy();
    readBack (*c, "copy");
    c->setValue (0, -1.25);
    readBack (h, "after setting the copy");
    h.reset();
    h.prepare (48000, 2, 2, 64);
    readBack (h, "after reset and prepare");
    for (int i = 0; i < 40; ++i)
    {
        const size_t a = hv::genChannels (r), b = hv::genChannels (r);
        cx.need (h.supportsChannelLayout (a, b) == (a == b), "layout", hv::cat ("support of ", a, " inputs and ", b, " outputs is declared wrongly"));
        if (a != b)
        {
            hart::AudioBuffer<T> x (a, 3), y (b, 3);
            const auto o = observe ([&] { h.process (x, y, {}); });
            cx.need (o.errorType == "ChannelLayout", "unsupported-processed", "processing an unsupported layout gave " + (o.threw ? o.errorType : std::string ("no error")));
            cx.saw ("unsupported layouts");
        }
    }
    for (int id : { 0, 1, -1, (int) r.range (1, 1000000) })
    {
        cx.need (! h.supportsEnvelopeFor (id), "automatable", hv::cat ("parameter ", id, " is declared automatable"));
        const auto o = observe ([&] { h.withEnvelope (id, TableEnvelope ({ 1.0 })); });
        cx.need (o.errorType == "Unsupported", "automation-accepted", "attaching automation gave " + (o.threw ? o.errorType : std::string ("no error")));
        cx.saw ("refused automation");
    }
    readBack (h, "after refusing automation");
}

template <typename T> static void hosted (hv::Ctx& cx)
{
    auto& r = cx.rng;
    auto c = genConfig<T> (r, 20000, true);
    if (c.frames == 0) return;
    double db = r.uni (-40, 6);
    hart::AudioTestBuilder<T> b { hart::HardClip<T> (db) };
    cx.describe = c.str() + hv::cat (" HardClip ", db);
    cx.nontrivial (cx.describe);
    b.withSampleRate (c.rate).withBlockSize (c.block).withDuration (c.duration).withInputChannels (c.in).withOutputChannels (c.out);
    const IndexSignal<T> input (newLog<T>(), r.u64() % 30000000);
    b.withInputSignal (input);
    for (int i = (int) r.range (0, 2); i > 0; --i) { db = r.uni (-40, 6); b.withValue (0, db); }
    ProbeMatcher<T> probe;
    b.expectTrue (probe);
    const auto o = observe ([&] { b.process(); });
    cx.need (! o.threw, "run-error", o.error);
    if (o.threw) return;
    const auto& seen = probe.log->seen;
    for (size_t k = 0; k < c.out; ++k)
        for (size_t f = 0; f < c.frames; ++f)
        {
            if (k >= seen.size() || f >= seen[k].size()) { cx.viol ("short", "the output is too short"); return; }
            const auto bad = judge<T> (indexValue<T> (k, f, c.in, input.salt), seen[k][f], ratioOf (db));
            if (! bad.empty()) { cx.viol ("run:clip", hv::cat ("channel ", k, " frame ", f, ": ", bad)); return; }
        }
    cx.saw ("hosted runs");
}

template <typename T> static void any (hv::Ctx& cx)
{
    const double p = cx.rng.uni();
    if (p < 0.65) direct<T> (cx);
    else if (p < 0.8) accessors<T> (cx);
    else hosted<T> (cx);
}

void hv_case (hv::Ctx& cx) { if (cx.rng.chance (0.5)) any<float> (cx); else any<double> (cx); }
