// M01: the equality check accepts exactly what lies within tolerance of the reference. The
// reference's audio is known independently; deviations of known size are put anywhere.
#include "stock.hpp"
using namespace hp;

template <typename T> struct Scene
{
    double rate = 44100, tol = 1e-5;
    bool exact = false;        // all values and differences are exactly representable
    bool defaultTol = false;
    size_t channels = 1, total = 1, block = 1;
    Planes<T> ref;
    std::function<std::unique_ptr<hart::EqualsTo<T>>()> make;
};

enum Verdict { isSame, isDifferent, isClose };

template <typename T> static Verdict verdictOf (const Scene<T>& s, T observed, T reference)
{
    const double a = (double) observed, b = (double) reference;
    if (std::isnan (a) || std::isnan (b)) return isDifferent;
    if (a == b) return isSame;
    if (std::isinf (a) || std::isinf (b)) return isDifferent;
    const double d = std::abs (a - b);
    if (s.exact)
    {
        if (d <= s.tol) return isSame;
        // beside zero every difference is exact, elsewhere it may round in the type of the samples
        return b == 0 || d > s.tol + 4 * (double) std::numeric_limits<T>::epsilon() * (s.tol + std::abs (a) + std::abs (b)) ? isDifferent : isClose;
    }
    const double slack = 1e-3 * s.tol + (sizeof (T) == 4 ? 3e-7 : 1e-13) * (1 + std::abs (a) + std::abs (b));
    if (d <= s.tol - slack) return isSame;
    if (d >= s.tol + slack) return isDifferent;
    return isClose;
}

template <typename T> static Scene<T> genScene (hv::Ctx& cx, std::string& text)
{
    auto& r = cx.rng;
    Scene<T> s;
    s.rate = hv::genRate (r);
    s.channels = hv::genChannels (r, r.chance (0.15) ? 128 : 32);
    s.total = hv::genSize (r, std::max<size_t> (1, 6000 / s.channels));
    s.block = hv::genSize (r, 2048);
    s.exact = r.chance (0.45);
    if (s.exact)
    {
        s.tol = r.chance (0.15) ? 0.0 : std::pow (2.0, -(double) r.range (0, 12));
        Planes<T> p (s.channels, std::vector<T> (s.total));
        const bool silent = r.chance (0.15);
        if (! silent) for (auto& c : p) for (auto& v : c) v = (T) ((double) r.range (-1024, 1024) / 512.0);
        if (r.chance (0.06)) p[(size_t) r.range (0, (int64_t) s.channels - 1)][(size_t) r.range (0, (int64_t) s.total - 1)] = std::numeric_limits<T>::quiet_NaN();
        if (r.chance (0.06)) p[(size_t) r.range (0, (int64_t) s.channels - 1)][(size_t) r.range (0, (int64_t) s.total - 1)] = std::numeric_limits<T>::infinity();
        s.ref = p;
        const double tol = s.tol;
        auto data = std::make_shared<DataSignal<T>> (p);
        s.make = [=] { return std::unique_ptr<hart::EqualsTo<T>> (new hart::EqualsTo<T> (*data, tol)); };
        text = hv::cat (hv::typeTag<T>(), " data tol ", s.tol);
    }
    else
    {
        s.defaultTol = r.chance (0.2);
        s.tol = s.defaultTol ? 1e-5 : std::pow (10.0, r.uni (-4, 0));
        SigSpec spec = genSig (r, s.rate, s.channels, s.total, cx.scratch, 3, true, true);
        s.ref = renderFresh<T> (spec, s.rate, s.channels, s.total, s.block);
        const double tol = s.tol;
        const bool def = s.defaultTol;
        s.make = [=]
        {
            auto sig = spec.make<T>();
            std::unique_ptr<hart::EqualsTo<T>> m (def ? new hart::EqualsTo<T> (*sig) : new hart::EqualsTo<T> (*sig, tol));
            sig->resetWithDSPChain();
            return m;
        };
        text = hv::cat (hv::typeTag<T>(), " ", spec.str(), " tol ", s.tol);
    }
    text += hv::cat (" ", s.rate, " Hz ", s.channels, " channels ", s.total, " frames block ", s.block);
    return s;
}

/// a copy of the reference with zero or more deviations
template <typename T> static Planes<T> observed (hv::Rng& r, const Scene<T>& s)
{
    Planes<T> p = s.ref;
    if (r.chance (0.4))
        for (auto& c : p)
            for (auto& v : c)  // small deviations everywhere
            {
                if (s.exact) v += (T) (s.tol * (double) r.range (-1, 1) * (r.chance (0.5) ? 1.0 : 0.5));
                else v += (T) (s.tol * r.uni (-0.9, 0.9));
            }
    // a reference that is no number is matched by nothing
    if (r.chance (0.5)) for (auto& c : p) for (auto& v : c) if (std::isnan (v)) v = (T) ((double) r.range (-4, 4) / 4);
    const int n = r.chance (0.3) ? 0 : r.chance (0.7) ? 1 : (int) r.range (2, 6);
    for (int i = 0; i < n; ++i)
    {
        const size_t c = r.chance (0.3) ? s.channels - 1 : (size_t) r.range (0, (int64_t) s.channels - 1);
        const size_t f = r.chance (0.15) ? s.total - 1 : r.chance (0.15) ? 0 : (size_t) r.range (0, (int64_t) s.total - 1);
        T& v = p[c][f];
        const T base = s.ref[c][f];
        switch ((int) r.range (0, 7))
        {
            case 7: v = base + (T) s.tol * (r.chance (0.5) ? (T) 1 : (T) -1); if (r.chance (0.7)) v = std::nextafter (v, v > base ? (T) 9 : (T) -9); break;
            case 0: v = std::numeric_limits<T>::quiet_NaN(); break;
            case 1: v = std::numeric_limits<T>::infinity() * (r.chance (0.5) ? (T) 1 : (T) -1); break;
            case 2: v = base + (T) 1 + (T) s.tol; break;
            case 3: v = base + (T) (s.tol * (s.exact ? 1.0 : 0.99) * (r.chance (0.5) ? 1 : -1)); break;
            case 4: v = base + (T) (s.exact ? (s.tol + std::pow (2.0, -11)) * (r.chance (0.5) ? 1 : -1) : s.tol * (r.chance (0.5) ? 1.02 : -1.02)); break;
            case 5: v = -base; break;
            default: v = base + (T) (s.tol * 3) * (r.chance (0.5) ? (T) 1 : (T) -1);
        }
    }
    return p;
}

template <typename T> static bool feed (hv::Ctx& cx, hart::Matcher<T>& m, const Scene<T>& s, const Decimals& dec, const char* when, size_t limit)
{
    auto& r = cx.rng;
    const auto obs = observed (r, s);
    size_t at = 0;
    for (size_t n : hv::genPartition (r, std::min (limit, s.total), s.block))
    {
        hart::AudioBuffer<T> b (s.channels, n);
        bool anyDifferent = false, anyClose = false;
        for (size_t c = 0; c < s.channels; ++c)
            for (size_t f = 0; f < n; ++f)
            {
                b[c][f] = obs[c][at + f];
                const auto v = verdictOf (s, obs[c][at + f], s.ref[c][at + f]);
                anyDifferent |= v == isDifferent;
                anyClose |= v == isClose;
            }
        const bool ok = m.match (b);
        cx.saw (ok ? "accepted blocks" : "rejected blocks");
        if (! anyClose && ok == anyDifferent)
        {
            cx.viol (ok ? "accepted-mismatch" : "rejected-match", hv::cat (when, ": a block of ", n, " frames at ", at, ok ? " was accepted although it differs" : " was rejected although it is within tolerance"));
            return false;
        }
        if (! ok && ! anyClose)
        {
            const auto d = m.getFailureDetails();
            if (d.channel >= s.channels || d.frame >= n) { cx.viol ("position-range", hv::cat (when, ": failure at channel ", d.channel, " frame ", d.frame, " of a block of ", n)); return false; }
            const T o = obs[d.channel][at + d.frame], w = s.ref[d.channel][at + d.frame];
            if (verdictOf (s, o, w) != isDifferent) { cx.viol ("position", hv::cat (when, ": failure reported at channel ", d.channel, " frame ", d.frame, " where the audio matches")); return false; }
            // the first mismatch of its channel
            for (size_t f = 0; f < d.frame; ++f) if (verdictOf (s, obs[d.channel][at + f], s.ref[d.channel][at + f]) == isDifferent) { cx.viol ("not-first", hv::cat (when, ": failure reported at frame ", d.frame, ", the first mismatch of channel ", d.channel, " is at ", f)); return false; }
            const std::string key = "Expected sample value: ";
            const auto p = d.description.find (key);
            if (p == std::string::npos) { cx.viol ("description", "the expected value is not described: " + d.description); return false; }
            const auto rest = d.description.substr (p + key.size());
            const double slack = (sizeof (T) == 4 ? 2e-6 : 1e-9) * (1 + std::abs ((double) w));
            if (! shows (rest.substr (0, rest.find (' ')), (double) w, dec.lin, slack)) { cx.viol ("expected-value", hv::cat (when, ": the expected value ", (double) w, " is described as ", rest)); return false; }
            cx.saw ("failure details");
        }
        at += n;
    }
    return true;
}

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    std::string text;
    auto s = genScene<T> (cx, text);
    const auto dec = genDecimals (r);
    setDecimals (dec);
    cx.describe = text;
    cx.nontrivial (text);
    if (cx.index % 700 == 0) cx.sample (text);
    std::unique_ptr<hart::Matcher<T>> m = s.make();
    cx.saw (s.exact ? "exact scenes" : "stock scenes");
    const int history = (int) r.range (1, 5);
    for (int i = 0; i < history; ++i)
    {
        bool fresh = i == 0;  // a copy has to be prepared before it is used, like any other instance
        switch (i == 0 ? 0 : (int) r.range (0, 4))
        {
            case 1: m = m->copy(); fresh = true; cx.saw ("copies"); break;
            case 2: m = m->move(); fresh = true; break;
            case 3: { auto c = m->copy(); c->prepare (s.rate, s.channels, s.block); c->reset(); hart::AudioBuffer<T> b (s.channels, std::min (s.block, s.total)); c->match (b); cx.saw ("copies"); break; }
            default: break;
        }
        if (fresh || r.chance (0.7)) { m->prepare (s.rate, s.channels, s.block); m->reset(); }
        else { m->reset(); if (r.chance (0.5)) m->prepare (s.rate, s.channels, s.block); }
        if (i > 0) cx.saw ("restarts");
        if (! feed<T> (cx, *m, s, dec, i == 0 ? "first" : "after a restart", r.chance (0.7) ? s.total : (size_t) r.range (1, (int64_t) s.total))) return;
    }
}

/// an effect that puts out known audio, whatever its input
template <typename T> struct Source : hart::DSP<T>
{
    Planes<T> planes;
    size_t pos = 0;
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>&, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f) out[c][f] = c < planes.size() && pos + f < planes[c].size() ? planes[c][pos + f] : (T) 0;
        pos += out.getNumFrames();
    }
    void reset() override { pos = 0; }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t outs) const override { return outs == planes.size(); }
    void represent (std::ostream& o) const override { o << "Source()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return std::unique_ptr<hart::DSP<T>> (new Source (*this)); }
    std::unique_ptr<hart::DSP<T>> move() override { return std::unique_ptr<hart::DSP<T>> (new Source (std::move (*this))); }
};

/// a whole run decides over the same audio, per block or at once
template <typename T> static void hosted (hv::Ctx& cx)
{
    auto& r = cx.rng;
    std::string text;
    auto s = genScene<T> (cx, text);
    cx.describe = "run " + text;
    cx.nontrivial (cx.describe);
    const auto obs = observed (r, s);
    bool anyDifferent = false, anyClose = false;
    for (size_t c = 0; c < s.channels; ++c)
        for (size_t f = 0; f < s.total; ++f) { const auto v = verdictOf (s, obs[c][f], s.ref[c][f]); anyDifferent |= v == isDifferent; anyClose |= v == isClose; }
    if (anyClose) return;
    const bool positive = r.chance (0.6), asserted = r.chance (0.3);
    RecordingDSP<T> pass;
    pass.keepAudio = false;
    Source<T> source;  // gives the audio by itself, from any number of inputs
    source.planes = obs;
    const bool bySource = r.chance (0.5);
    const size_t inputs = bySource ? (r.chance (0.3) ? s.channels : hv::genChannels (r, 8)) : s.channels;
    const bool used = r.chance (0.5);
    if (bySource && inputs != s.channels) cx.saw ("runs with unequal channel counts");
    const auto o = observe ([&]
    {
        hart::AudioTestBuilder<T> b = bySource ? hart::AudioTestBuilder<T> (source) : hart::AudioTestBuilder<T> (pass);
        b.withSampleRate (s.rate).withBlockSize (s.block).withDuration ((double) s.total / s.rate).withInputChannels (inputs).withOutputChannels (s.channels);
        if (bySource) b.withInputSignal (hart::Silence<T>()); else b.withInputSignal (DataSignal<T> (obs));
        auto m = s.make();

        if (used)  // on other audio before
        {
            const size_t channels = s.channels, n = (size_t) r.range (1, 50);
            m->prepare (s.rate, channels, n);
            m->reset();
            m->match (hart::AudioBuffer<T> (channels, n));
            cx.saw ("runs with used matchers");
        }

        if (positive && asserted) b.assertTrue (*m); else if (positive) b.expectTrue (*m); else if (asserted) b.assertFalse (*m); else b.expectFalse (*m);
        b.process();
    });
    const bool failed = o.assertFailed || ! o.expects.empty();
    cx.need (! o.threw || o.assertFailed, "run-error", o.error);
    cx.need (failed == (anyDifferent == positive), "run-verdict", hv::cat (positive ? "True" : "False", asserted ? " assertion" : " expectation", failed ? " failed" : " passed", " for audio that ", anyDifferent ? "differs" : "matches"));
    cx.saw ("runs");
}

void hv_case (hv::Ctx& cx)
{
    const bool h = cx.rng.chance (0.3);
    if (cx.rng.chance (0.5)) { if (h) hosted<float> (cx); else run<float> (cx); }
    else { if (h) hosted<double> (cx); else run<double> (cx); }
}
