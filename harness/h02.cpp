// H02: which setups are refused, with which error, and that nothing is processed in a refused one.
#include "stock.hpp"
using namespace hp;

template <typename T> static void setters (hv::Ctx& cx)
{
    auto& r = cx.rng;
    cx.describe = "invalid setter values, " + hv::typeTag<T>();
    auto dlog = newLog<T>();
    RecordingDSP<T> dsp (dlog);
    const double okRate = hv::genRate (r);
    dsp.rateOk = [=] (double x) { return x == okRate; };
    hart::AudioTestBuilder<T> b { RecordingDSP<T> (dsp) };
    IndexSignal<T> sig;
    b.withSampleRate (okRate);
    size_t block = 1024, in = 1, out = 1;
    double dur = 0.1;
    if (r.chance (0.7)) b.withBlockSize (block = (size_t) r.range (16, 4000));
    if (r.chance (0.7)) b.withInputChannels (in = hv::genChannels (r, 16));
    if (r.chance (0.7)) b.withOutputChannels (out = hv::genChannels (r, 16));
    dur = (double) r.range (1, 5000) / okRate;
    b.withDuration (dur);
    auto refuse = [&] (const char* what, std::initializer_list<const char*> types, std::function<void()> f)
    {
        const auto o = observe (f);
        bool ok = false;
        for (auto t : types) ok |= o.errorType == t;
        cx.need (o.threw, std::string ("accepted:") + what, std::string (what) + " was accepted");
        cx.need (! o.threw || ok, std::string ("error-type:") + what, std::string (what) + " was refused with a " + o.errorType + " error");
        cx.saw (std::string ("refused ") + what);
    };
    const int rounds = (int) r.range (1, 6);
    for (int i = 0; i < rounds; ++i)
    {
        switch (r.range (0, 7))
        {
            case 0: refuse ("zero block size", { "Size" }, [&] { b.withBlockSize (0); }); break;
            case 1: refuse ("zero input channels", { "Size" }, [&] { b.withInputChannels (0); }); break;
            case 2: refuse ("zero output channels", { "Size" }, [&] { b.withOutputChannels (0); }); break;
            case 3: { const size_t n = r.pick<size_t> ({ 129, 130, 200, 1000, 65536, (size_t) 1 << 40, ~(size_t) 0 }); refuse ("too many input channels", { "Size" }, [&] { b.withInputChannels (n); }); break; }
            case 4: { const size_t n = r.pick<size_t> ({ 129, 130, 256, 4096, ~(size_t) 0 }); refuse ("too many output channels", { "Size" }, [&] { b.withOutputChannels (n); }); break; }
            case 5: { const double x = r.pick<double> ({ 0.0, -0.0, -1.0, -44100.0, -1e-300, -hart::inf, std::nan (""), hart::inf }); refuse (std::isfinite (x) ? "non-positive sample rate" : "sample rate that is no number", { "Value", "SampleRate" }, [&] { b.withSampleRate (x); }); break; }
            case 6: { const double x = r.pick<double> ({ -1.0, -0.1, -1e-9, -1e300, -1e-300, -hart::inf, std::nan (""), hart::inf }); refuse (std::isfinite (x) ? "negative duration" : "duration that is no number", { "Value" }, [&] { b.withDuration (x); }); break; }
            case 7: { const double x = okRate * r.pick<double> ({ 0.5, 2.0, 1.0001 }); refuse ("unsupported sample rate", { "SampleRate" }, [&] { b.withSampleRate (x); }); break; }
        }
    }
    // limits are accepted
    if (r.chance (0.2)) { b.withInputChannels (128); in = 128; cx.saw ("accepted 128 channels"); }
    if (r.chance (0.2)) { b.withOutputChannels (128); out = 128; cx.saw ("accepted 128 channels"); }
    if (r.chance (0.2)) { block = r.pick<size_t> ({ 1000000, 1048577, 20000000, 1000000000, (size_t) 1 << 40 }); b.withBlockSize (block); }
    b.withInputSignal (sig);
    b.process();
    const int p = dlog->first (Event::prepare);
    cx.need (p >= 0, "no-run", "a valid setup was not run");
    if (p >= 0)
    {
        auto& e = dlog->events[(size_t) p];
        cx.need (e.x == okRate && e.a == in && e.b == out && e.c == block, "refused-value-kept",
                 hv::cat ("after refused settings the run used rate ", e.x, " in ", e.a, " out ", e.b, " block ", e.c, ", want ", okRate, " ", in, " ", out, " ", block));
        size_t frames = 0;
        for (size_t n : dlog->blocks) frames += n;
        cx.need (frames == (size_t) std::round (okRate * dur), "refused-duration-kept", hv::cat ("ran ", frames, " frames"));
    }
    cx.nontrivial (hv::cat ("setters", cx.index));
}

template <typename T> static void empty (hv::Ctx& cx)
{
    auto& r = cx.rng;
    auto dlog = newLog<T>(), slog = newLog<T>();
    hart::AudioTestBuilder<T> b { RecordingDSP<T> (dlog) };
    const double rate = hv::genRate (r);
    b.withSampleRate (rate);
    const bool noInput = r.chance (0.5);
    const bool nothing = ! noInput || r.chance (0.2);
    // what no counter holds can't be processed either
    const bool endless = nothing && r.chance (0.25);
    if (endless) b.withDuration (r.pick<double> ({ 1e300, 1e200, 1e30, std::ldexp (1.0, 64) * 1.001 / rate }));
    else if (nothing) b.withDuration (r.chance (0.3) ? 0.0 : r.uni (0, 0.49) / rate);
    else b.withDuration (20.0 / rate);
    if (! noInput) b.withInputSignal (IndexSignal<T> (slog));
    ProbeMatcher<T> m;
    if (r.chance (0.3)) b.expectTrue (m);
    cx.describe = hv::cat (endless ? "endless=" : "nothing to process=", nothing, " no input=", noInput, " rate=", rate);
    cx.nontrivial (cx.describe);
    const auto o = observe ([&] { b.process(); });
    cx.need (o.threw, noInput ? "accepted:no-input" : endless ? "accepted:endless" : "accepted:zero-frames", "the run was not refused");
    const bool ok = (noInput && o.errorType == "State") || (nothing && o.errorType == "Size") || (endless && o.errorType == "Value");
    cx.need (! o.threw || ok, noInput ? "error-type:no-input" : "error-type:zero-frames", "refused with a " + o.errorType + " error");
    cx.need (dlog->count (Event::process) == 0 && slog->count (Event::process) == 0, "processed-in-refused-run", "audio was processed in a refused run");
    cx.saw (noInput ? "refused no input" : endless ? "refused endless audio" : "refused zero frames");
}

/// every participant declares what it supports; the run must be refused iff one does not support its part
template <typename T> static void support (hv::Ctx& cx)
{
    auto& r = cx.rng;
    AudioConfig<T> c = genConfig<T> (r, 20000, r.chance (0.5));
    if (c.frames == 0) return;
    struct Part { std::string what; LogPtr<T> log; bool okLayout = true, okRate = true; };
    std::vector<Part> parts;
    auto makeDsp = [&] (const std::string& what, size_t in, size_t out)
    {
        RecordingDSP<T> d (newLog<T>());
        Part p;
        p.what = what;
        p.log = d.log;
        const bool okL = r.chance (0.85), okR = r.chance (0.9);
        p.okLayout = okL;
        p.okRate = okR;
        // supports everything but (or nothing but) the layout in question
        if (okL && r.chance (0.5)) d.layoutOk = [=] (size_t a, size_t b) { return a == in && b == out; };
        if (! okL) { if (r.chance (0.5)) d.layoutOk = [=] (size_t a, size_t b) { return ! (a == in && b == out); }; else d.layoutOk = [] (size_t, size_t) { return false; }; }
        const double rate = c.rate;
        if (okR && r.chance (0.5)) d.rateOk = [=] (double x) { return x == rate; };
        if (! okR) { if (r.chance (0.5)) d.rateOk = [=] (double x) { return x != rate; }; else d.rateOk = [] (double) { return false; }; }
        parts.push_back (p);
        return d;
    };
    auto makeSig = [&] (const std::string& what, size_t n)
    {
        IndexSignal<T> s (newLog<T>(), 0);
        Part p;
        p.what = what;
        p.log = s.log;
        p.okLayout = r.chance (0.85);
        p.okRate = r.chance (0.9);
        const double rate = c.rate;
        const bool okL = p.okLayout, okR = p.okRate;
        s.channelsOk = [=] (size_t k) { return okL ? true : k != n; };
        if (okL && r.chance (0.5)) s.channelsOk = [=] (size_t k) { return k == n; };
        s.rateOk = [=] (double x) { return okR ? true : x != rate; };
        parts.push_back (p);
        return s;
    };
    const bool strictRateAtSetter = r.chance (0.5);
    RecordingDSP<T> tested = makeDsp ("tested effect", c.in, c.out);
    if (! parts[0].okRate && ! strictRateAtSetter)
        c.rate = c.rate;  // the rate is refused when it is set
    IndexSignal<T> input = makeSig ("input signal", c.in);
    const int chain = (int) r.range (0, 3);
    for (int i = 0; i < chain; ++i) input.followedBy (makeDsp (hv::cat ("effect ", i, " of the input signal"), c.in, c.in));
    const bool withRef = r.chance (0.5);
    std::unique_ptr<IndexSignal<T>> ref;
    if (withRef)
    {
        ref.reset (new IndexSignal<T> (makeSig ("reference signal", c.out)));
        const int rc = (int) r.range (0, 2);
        for (int i = 0; i < rc; ++i) ref->followedBy (makeDsp (hv::cat ("effect ", i, " of the reference"), c.out, c.out));
    }
    // a case in which the default rate is used and not supported
    const bool defaultRate = r.chance (0.25);
    bool badLayout = false, badRate = false;
    std::string who;
    for (auto& p : parts)
    {
        badLayout |= ! p.okLayout;
        badRate |= ! p.okRate;
        if (! p.okLayout || ! p.okRate) who += p.what + (p.okLayout ? " (rate)" : p.okRate ? " (channels)" : " (both)") + "; ";
    }
    if (defaultRate)
    {
        // rebuild the rate predicates for the default rate
        c.rate = 44100;
        c.duration = (double) c.frames / 44100;
        if (tested.rateOk) { const bool ok = parts[0].okRate; tested.rateOk = [=] (double x) { return ok ? true : x != 44100; }; }
        badRate = ! parts[0].okRate;
        // everyone else: predicates were made for another rate, so only keep this kind of case if they agree
        for (size_t i = 1; i < parts.size(); ++i) if (! parts[i].okRate) return;
        IndexSignal<T> plain (newLog<T>());
        parts.resize (2);
        parts[1].log = plain.log;
        parts[1].okLayout = true;
        badLayout = ! parts[0].okLayout;
        who = std::string (badLayout ? "tested effect (channels) " : "") + (badRate ? "tested effect (rate)" : "");
        hart::AudioTestBuilder<T> b { RecordingDSP<T> (tested) };
        cx.describe = c.str() + " default rate, unsupported by: " + who;
        cx.nontrivial (cx.describe);
        const auto o = observe ([&] {
            b.withInputChannels (c.in).withOutputChannels (c.out).withDuration (c.duration).withBlockSize (c.block).withInputSignal (plain);
            b.process();
        });
        cx.need (o.threw == (badLayout || badRate), o.threw ? "refused:default-rate" : "accepted:default-rate", o.threw ? "refused: " + o.error : "accepted although unsupported");
        if (o.threw) cx.need ((badLayout && o.errorType == "ChannelLayout") || (badRate && o.errorType == "SampleRate"), "error-type:default-rate", "refused with a " + o.errorType + " error");
        for (auto& p : parts) if (badLayout || badRate) cx.need (p.log->count (Event::process) == 0, "processed-in-refused-run", p.what + " processed audio in a refused run");
        cx.saw (badLayout || badRate ? "refused unsupported" : "accepted supported");
        return;
    }
    cx.describe = c.str() + " chain=" + std::to_string (chain) + " ref=" + std::to_string (withRef) + " unsupported by: " + who;
    cx.nontrivial (cx.describe);
    const auto o = observe ([&] {
        hart::AudioTestBuilder<T> b { RecordingDSP<T> (tested) };
        b.withInputChannels (c.in).withOutputChannels (c.out).withDuration (c.duration).withBlockSize (c.block).withInputSignal (input).withSampleRate (c.rate);
        if (withRef) { if (r.chance (0.7)) b.expectTrue (hart::EqualsTo<T> (*ref)); else b.expectFalse (hart::EqualsTo<T> (*ref)); }
        b.process();
    });
    const bool bad = badLayout || badRate;
    cx.need (o.threw == bad, o.threw ? "refused-supported" : "accepted-unsupported", o.threw ? "refused with: " + o.error : "accepted although unsupported");
    if (o.threw && bad)
        cx.need ((badLayout && o.errorType == "ChannelLayout") || (badRate && o.errorType == "SampleRate"), "error-type:unsupported", "refused with a " + o.errorType + " error: " + o.error);
    for (auto& p : parts)
        if (bad && (! p.okLayout || ! p.okRate))
            cx.need (p.log->count (Event::process) == 0, "processed-unsupported", p.what + " was given audio in a setup it does not support");
    if (! bad)
    {
        cx.need (parts[0].log->count (Event::process) > 0, "nothing-processed", "a supported setup processed nothing");
        for (auto& p : parts)
        {
            const int prep = p.log->first (Event::prepare), sup = std::max (p.log->first (Event::supLayout), p.log->first (Event::supChannels)), sr = p.log->first (Event::supRate);
            cx.need (sup >= 0 && prep >= 0 && sup < prep, "not-asked-channels", p.what + " was not asked for its channel support before being prepared");
            cx.need (sr >= 0 && sr < prep, "not-asked-rate", p.what + " was not asked for its rate support before being prepared");
        }
    }
    cx.saw (bad ? "refused unsupported" : "accepted supported");
    cx.saw ("participants", parts.size());
    if (cx.index < 40) cx.sample (cx.describe);
}

/// stock participants
template <typename T> static void stock (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const size_t in = hv::genChannels (r, 20), out = r.chance (0.4) ? in : hv::genChannels (r, 20);
    const int kind = (int) r.range (0, 2);
    const bool ok = in == out || (in == 1 && kind != 2);
    cx.describe = hv::cat ("stock effect ", kind, " in=", in, " out=", out);
    cx.nontrivial (cx.describe);
    auto slog = newLog<T>();
    const auto o = observe ([&] {
        std::unique_ptr<hart::DSP<T>> d;
        if (kind == 0) d.reset (new hart::GainDb<T> (-6)); else if (kind == 1) d.reset (new hart::GainLinear<T> (0.5)); else d.reset (new hart::HardClip<T> (-6));
        hart::AudioTestBuilder<T> b (std::move (d));
        b.withInputChannels (in).withOutputChannels (out).withInputSignal (IndexSignal<T> (slog)).withDuration (0.01).process();
    });
    cx.need (ok || slog->count (Event::process) == 0, "processed-stock", "audio was rendered in a refused run");
    cx.need (o.threw == ! ok, ok ? "refused-stock" : "accepted-stock", ok ? "refused: " + o.error : "accepted");
    if (o.threw) cx.need (o.errorType == "ChannelLayout", "error-type:stock", o.errorType);
    cx.saw (ok ? "accepted supported" : "refused unsupported");
}

/// a stock effect that cannot do the layout of a chain it is in, and wav files that do not fit the test
template <typename T> static void stockParts (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const size_t in = hv::genChannels (r, 6), out = hv::genChannels (r, 6);
    const unsigned rate = r.pick<unsigned> ({ 8000, 44100, 48000, 96000 });
    const unsigned fileRate = r.chance (0.6) ? rate : r.pick<unsigned> ({ 8000, 44100, 44101, 48000, 96000, rate + 1 });
    const bool asReference = r.chance (0.5);
    const size_t channels = asReference ? out : in;
    const size_t fileChannels = r.chance (0.5) ? channels : (size_t) r.range (1, 8);
    const std::string path = cx.scratch + "/h02.wav";
    makeFloatWav (r, path, (unsigned) fileChannels, (size_t) r.range (1, 50), fileRate);
    const bool bad = fileChannels < channels || fileRate != rate;
    cx.describe = hv::cat ("wav file with ", fileChannels, " channels at ", fileRate, " Hz as ", asReference ? "reference" : "input", " in=", in, " out=", out, " rate=", rate);
    cx.nontrivial (cx.describe);
    auto dlog = newLog<T>();
    const auto o = observe ([&] {
        hart::WavFile<T> wav (path, r.chance (0.5) ? hart::WavFile<T>::Loop::yes : hart::WavFile<T>::Loop::no);
        if (r.chance (0.4)) wav.followedBy (hart::HardClip<T> (0));
        hart::AudioTestBuilder<T> b { RecordingDSP<T> (dlog) };
        b.withInputChannels (in).withOutputChannels (out).withSampleRate (rate).withDuration (0.01);
        if (asReference) b.withInputSignal (IndexSignal<T>()).expectTrue (hart::EqualsTo<T> (wav)); else b.withInputSignal (wav);
        b.process();
    });
    hart::ExpectationFailureMessages::clear();
    cx.need (o.threw == bad, bad ? "accepted-wav" : "refused-wav", bad ? "accepted" : "refused: " + o.error);
    if (o.threw && bad)
        cx.need ((fileChannels < channels && o.errorType == "ChannelLayout") || (fileRate != rate && (o.errorType == "Unsupported" || o.errorType == "SampleRate")),
                 "error-type:wav", "refused with a " + o.errorType + " error");
    cx.need (! bad || dlog->count (Event::process) == 0, "processed-refused-wav", "audio was processed in a refused run");
    cx.saw (bad ? "refused wav file" : "accepted wav file");
}

// participants of which there can be only one; the library's macros name its classes without their namespace
using hart::Signal;
using hart::DSP;
using hart::Matcher;
template <typename SampleType> struct OnlySignal : hart::Signal<SampleType>
{
    OnlySignal() = default;
    OnlySignal (const OnlySignal&) = delete;
    void prepare (double, size_t, size_t) override {}
    void reset() override {}
    void renderNextBlock (hart::AudioBuffer<SampleType>& b) override { for (size_t c = 0; c < b.getNumChannels(); ++c) for (size_t f = 0; f < b.getNumFrames(); ++f) b[c][f] = 0; }
    HART_SIGNAL_FORBID_COPY_AND_MOVE
    HART_DEFINE_GENERIC_REPRESENT (OnlySignal)
};
template <typename SampleType> struct OnlyDSP : hart::DSP<SampleType>
{
    OnlyDSP() = default;
    OnlyDSP (const OnlyDSP&) = delete;
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<SampleType>&, hart::AudioBuffer<SampleType>& b, const hart::EnvelopeBuffers&) override { for (size_t c = 0; c < b.getNumChannels(); ++c) for (size_t f = 0; f < b.getNumFrames(); ++f) b[c][f] = 0; }
    void reset() override {}
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    HART_DSP_FORBID_COPY_AND_MOVE
    HART_DEFINE_GENERIC_REPRESENT (OnlyDSP)
};
template <typename SampleType> struct OnlyMatcher : hart::Matcher<SampleType>
{
    OnlyMatcher() = default;
    OnlyMatcher (const OnlyMatcher&) = delete;
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<SampleType>&) override { return false; }
    void reset() override {}
    bool canOperatePerBlock() override { return true; }
    hart::MatcherFailureDetails getFailureDetails() const override { return {}; }
    HART_MATCHER_FORBID_COPY_AND_MOVE
    HART_DEFINE_GENERIC_REPRESENT (OnlyMatcher)
};

/// what forbids copies is refused where a copy would be needed, and nothing changes
template <typename T> static void copies (hv::Ctx& cx)
{
    auto& r = cx.rng;
    cx.describe = hv::cat ("participants that forbid copies, ", hv::typeTag<T>(), " ", cx.index);
    cx.nontrivial (cx.describe);
    auto dlog = newLog<T>(), slog = newLog<T>(), clog = newLog<T>();
    const size_t frames = (size_t) r.range (1, 300);
    hart::AudioTestBuilder<T> b { RecordingDSP<T> (dlog) };
    b.withSampleRate (8000).withDuration ((double) frames / 8000);
    IndexSignal<T> sig (slog);
    RecordingDSP<T> effect (clog);
    sig.followedBy (effect);
    OnlySignal<T> signal;
    OnlyDSP<T> dsp;
    OnlyMatcher<T> matcher;
    auto refuse = [&] (const char* what, std::function<void()> f)
    {
        const auto o = observe (f);
        cx.need (o.threw, std::string ("accepted:") + what, std::string (what) + " was accepted");
        cx.need (! o.threw || o.errorType == "Unsupported", std::string ("error-type:") + what, std::string (what) + " was refused with a " + o.errorType + " error");
        cx.saw (std::string ("refused ") + what);
    };
    const hart::Signal<T>& anySignal = signal;
    const hart::DSP<T>& anyDSP = dsp;
    const hart::Matcher<T>& anyMatcher = matcher;
    auto attempts = [&] (int n)
    {
        for (; n > 0; --n)
            switch (r.range (0, 9))
            {
                case 0: refuse ("a signal that forbids copies", [&] { b.withInputSignal (signal); }); break;
                case 1: refuse ("a signal that forbids copies", [&] { b.withInputSignal (anySignal); }); break;
                case 2: refuse ("a reference that forbids copies", [&] { hart::EqualsTo<T> m (anySignal); }); break;
                case 3: refuse ("an effect in a chain that forbids copies", [&] { sig.followedBy (anyDSP); }); break;
                case 4: refuse ("an effect in a chain that forbids copies", [&] { sig >> anyDSP; }); break;
                case 5: refuse ("an effect that forbids copies", [&] { hart::AudioTestBuilder<T> x (dsp); }); break;
                case 6: refuse ("an effect that forbids moves", [&] { hart::AudioTestBuilder<T> x (std::move (dsp)); }); break;
                case 7: refuse ("a check that forbids copies", [&] { b.expectTrue (anyMatcher); }); break;
                case 8: refuse ("a check that forbids copies", [&] { if (r.chance (0.5)) b.assertTrue (anyMatcher); else b.assertFalse (anyMatcher); }); break;
                default: refuse ("a check that forbids copies", [&] { b.expectFalse (anyMatcher); });
            }
    };
    attempts ((int) r.range (1, 4));
    b.withInputSignal (sig);
    attempts ((int) r.range (0, 4));
    const auto o = observe ([&] { b.process(); });
    cx.need (! o.threw && o.expects.empty(), "refused-copies-kept", "the run fails after what was refused: " + (o.threw ? o.error : o.expects.empty() ? std::string() : o.expects[0]));
    size_t ran = 0;
    for (size_t n : dlog->blocks) ran += n;
    cx.need (o.threw || (ran == frames && clog->count (Event::process) > 0 && slog->count (Event::process) > 0), "refused-copies-run", "the run does not use what was set before and after what was refused");
}

template <typename T> static void one (hv::Ctx& cx)
{
    switch (cx.rng.range (0, 8))
    {
        case 8: return copies<T> (cx);
        case 0: return setters<T> (cx);
        case 1: return empty<T> (cx);
        case 2: return stock<T> (cx);
        case 7: return stockParts<T> (cx);
        default: return support<T> (cx);
    }
}

void hv_case (hv::Ctx& cx)
{
    if (cx.index % 2) one<float> (cx); else one<double> (cx);
}
