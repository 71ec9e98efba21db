// S05: effects in a signal's chain run in the order added, each once per block, with their
// automation, and give the same audio as when tested by the host.
#include "stock.hpp"
using namespace hp;

/// an affine effect with memory that records when it was called; no two of them commute
template <typename T> struct Link
{
    int tag;
    double a, b;
    bool automated = false;
    double base = 0;
    std::shared_ptr<std::vector<std::pair<int, size_t>>> order;

    RecordingDSP<T> make (LogPtr<T> log) const
    {
        RecordingDSP<T> d (log, tag);
        d.automatable = { 3 };
        auto me = *this;
        d.transform = [me] (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, size_t pos)
        {
            me.order->emplace_back (me.tag, in.getNumFrames());
            for (size_t c = 0; c < out.getNumChannels(); ++c)
                for (size_t f = 0; f < out.getNumFrames(); ++f)
                    out[c][f] = (T) ((double) in[c % in.getNumChannels()][f] * me.a + me.b + 1e-3 * (double) ((pos + f) % 13));
        };
        if (automated) d.withEnvelope (3, CounterEnvelope (base));
        return d;
    }
    void apply (Planes<T>& p) const
    {
        for (auto& c : p)
            for (size_t f = 0; f < c.size(); ++f) c[f] = (T) ((double) c[f] * a + b + 1e-3 * (double) (f % 13));
    }
};

template <typename T, typename D> static std::string attach (hv::Rng& r, hart::Signal<T>& s, D&& d)
{
    using Dec = typename std::decay<D>::type;
    const int how = (int) r.range (0, 9);
    switch (how)
    {
        case 0: s.followedBy (d); return "lvalue";
        case 1: { const Dec& c = d; s.followedBy (c); return "const lvalue"; }
        case 2: s.followedBy (std::move (d)); return "rvalue";
        case 3: { const hart::DSP<T>& c = d; s.followedBy (c); return "abstract reference"; }
        case 4: s.followedBy (d.copy()); return "copy()";
        case 5: s.followedBy (d.move()); return "move()";
        case 6: s >> d; return ">> lvalue";
        case 7: s >> d.copy(); return ">> unique_ptr";
        case 8: std::move (s) >> d; return "rvalue >> lvalue";
        default: std::move (s) >> d.move(); return "rvalue >> unique_ptr";
    }
}

template <typename T> static void order (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const double rate = hv::genRate (r);
    const bool large = r.chance (0.02);
    const size_t channels = (size_t) r.range (1, large ? 1 : 3), frames = large ? (size_t) r.range (3000, 70000) : hv::genSize (r, 500);
    const size_t block = large ? (size_t) r.range (3000, 70000) : std::max<size_t> (hv::genSize (r, 600), frames / 40 + 1);
    const int n = (int) r.range (1, large ? 2 : r.chance (0.05) ? 40 : 6);
    auto calls = std::make_shared<std::vector<std::pair<int, size_t>>>();
    IndexSignal<T> s (newLog<T>(), r.u64() & 0xffff);
    std::vector<Link<T>> links;
    std::vector<LogPtr<T>> logs;
    cx.describe = hv::cat (hv::typeTag<T>(), " order: channels=", channels, " frames=", frames, " block=", block, " rate=", rate, ":");
    for (int i = 0; i < n; ++i)
    {
        Link<T> l { i, r.uni (0.3, 0.9) * (r.chance (0.3) ? -1 : 1), r.uni (-0.5, 0.5), r.chance (0.4), 1000.0 * (i + 1), calls };
        logs.push_back (newLog<T>());
        auto d = l.make (logs.back());
        const auto how = attach<T> (r, s, d);
        if (how.find ("rvalue") != 0 && how != "move()" || how == "rvalue >> lvalue")
            cx.need (d.hasEnvelopeFor (3) == l.automated, "original-emptied", "an effect attached by " + how + " has lost its automation");
        cx.describe += " " + how + (l.automated ? "*" : "");
        cx.saw ("attached by " + how);
        links.push_back (l);
    }
    cx.nontrivial (cx.describe);
    if (cx.index % 300 == 0) cx.sample (cx.describe);

    // through a copy or not
    std::unique_ptr<hart::Signal<T>> own = r.chance (0.3) ? s.copy() : nullptr;
    hart::Signal<T>& sig = own ? *own : s;
    start (sig, rate, channels, block);
    const auto cut = hv::hostPartition (frames, block);
    for (int i = 0; i < n; ++i)
    {
        const int at = logs[(size_t) i]->last (Event::prepare);
        if (at < 0) { cx.viol ("chain-unprepared", hv::cat ("effect ", i, " was not prepared")); return; }
        const auto& e = logs[(size_t) i]->events[(size_t) at];
        cx.need (e.x == rate && e.a == channels && e.b == channels && e.c >= cut.front(), "chain-prepare", hv::cat ("effect ", i, " was prepared for ", e.x, " Hz, ", e.a, " to ", e.b, " channels and blocks up to ", e.c, " for blocks of ", cut.front()));
    }
    for (int pass = 0; pass < 2; ++pass)
    {
        calls->clear();
        for (auto& l : logs) l->clear();
        const auto got = renderAll (sig, channels, cut);
        Planes<T> want (channels, std::vector<T> (frames));
        for (size_t c = 0; c < channels; ++c) for (size_t f = 0; f < frames; ++f) want[c][f] = indexValue<T> (c, f, channels, s.salt);
        for (auto& l : links) l.apply (want);
        cx.need (diff (got, want, 1e-5).empty(), "chain-audio", "the audio is not that of the chain: " + diff (got, want, 1e-5));
        std::vector<std::pair<int, size_t>> wantCalls;
        for (size_t b : cut) for (int i = 0; i < n; ++i) wantCalls.emplace_back (i, b);
        cx.need (*calls == wantCalls, "chain-calls", hv::cat ("the effects were called ", calls->size(), " times or in another order than the ", wantCalls.size(), " expected calls"));
        cx.saw ("effect calls", calls->size());
        for (int i = 0; i < n; ++i)
        {
            for (auto& e : logs[(size_t) i]->envelopeErrors) cx.viol ("chain-automation-size", e);
            if (! links[(size_t) i].automated)
            {
                cx.need (logs[(size_t) i]->envelopes.empty(), "chain-automation-extra", hv::cat ("effect ", i, " received automation nobody attached"));
                continue;
            }
            const auto& e = logs[(size_t) i]->envelopes[3];
            bool ok = e.size() == frames && logs[(size_t) i]->envelopes.size() == 1;
            for (size_t k = 0; ok && k < frames; ++k) ok = e[k] == links[(size_t) i].base + (double) k;
            cx.need (ok, "chain-automation", hv::cat ("effect ", i, " received other automation than its own, on pass ", pass));
            cx.saw ("automated effects");
        }
        sig.resetWithDSPChain();
    }
}

/// the chain in front of a neutral host == the host testing the effect
template <typename T> static void equivalence (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const double rate = hv::genRate (r);
    const size_t channels = (size_t) r.range (1, 3), frames = hv::genSize (r, 600), block = std::max<size_t> (hv::genSize (r, 700), frames / 40 + 1);
    SigSpec spec = genSig (r, rate, channels, frames, cx.scratch, 2, true, true);
    const FxSpec fx = genFx (r, (double) frames / rate, true, true);
    cx.describe = hv::cat (hv::typeTag<T>(), " equivalence: rate=", rate, " channels=", channels, " frames=", frames, " block=", block, " ", spec.str(), " | ", fx.str());
    cx.nontrivial (cx.describe);
    if (cx.index % 300 == 0) cx.sample (cx.describe);

    auto capture = [&] (std::unique_ptr<hart::DSP<T>> dsp, const hart::Signal<T>& s)
    {
        ProbeMatcher<T> m;
        auto log = m.log;
        const auto o = observe ([&]
        {
            hart::processAudioWith (std::move (dsp)).withSampleRate (rate).withDuration (hv::durationFor (r, rate, frames)).withBlockSize (block)
                .withInputChannels (channels).withOutputChannels (channels).withInputSignal (s).expectTrue (m).process();
        });
        if (o.threw) cx.viol ("equivalence-run", o.errorType + ": " + o.error);
        return log->seen;
    };
    auto plain = spec.make<T>();
    const auto hosted = capture (fx.make<T>(), *plain);
    auto chained = spec.make<T>();
    chained->followedBy (fx.make<T>());
    auto neutral = std::unique_ptr<RecordingDSP<T>> (new RecordingDSP<T>());
    neutral->keepAudio = false;
    const auto inChain = capture (std::move (neutral), *chained);
    double top = 1;
    for (auto& c : hosted) for (T v : c) top = std::max (top, std::abs ((double) v));
    const auto d = diff (inChain, hosted, 1e-6 * top);
    cx.need (d.empty(), "host-vs-chain:" + fx.str().substr (0, 5) + (fx.hasEnv ? "+env" : ""), "in the chain and in the host: " + d);
    cx.saw ("host comparisons");
    // with a block of any length
    start (*chained, rate, channels, block);
    const auto alone = renderAll (*chained, channels, hv::genPartition (r, frames, block));
    const auto d2 = diff (alone, hosted, 1e-6 * top);
    cx.need (d2.empty(), "render-vs-host", "rendered alone and in the host: " + d2);
}

void hv_case (hv::Ctx& cx)
{
    const bool dbl = cx.rng.chance (0.5);
    if (cx.rng.chance (0.6)) { if (dbl) order<double> (cx); else order<float> (cx); }
    else { if (dbl) equivalence<double> (cx); else equivalence<float> (cx); }
}
