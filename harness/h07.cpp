// H07: how participants are handed over, what comes back and what remains, with a fault injected
// into any call that a run makes on its participants.
#include "stock.hpp"

using namespace hp;
using hart::DSP;

/// every call on a participant passes here; the n-th one may be made to fail
struct Fault
{
    static long& left() { static long n = -1; return n; }
    static size_t& ticks() { static size_t n = 0; return n; }
    static std::string& at() { static std::string s; return s; }
    struct Error : std::runtime_error { Error(): std::runtime_error ("injected fault") {} };
    static void tick (const char* where)
    {
        ++ticks();
        if (left() < 0) return;
        if (left()-- == 0) { at() = where; throw Error(); }
    }
    static void arm (long n) { left() = n; ticks() = 0; at().clear(); }
    static void disarm() { left() = -1; }
};

struct Tally { size_t copies = 0, moves = 0; };

struct State
{
    size_t pos = 0, calls = 0;
    double value = 0;
    bool operator== (const State& o) const { return pos == o.pos && calls == o.calls && sameBits (value, o.value); }
    std::string str() const { return hv::cat ("pos ", pos, ", ", calls, " calls, value ", value); }
};

template <typename T> struct Sink { static Planes<T>& out() { static Planes<T> p; return p; } };

template <typename T> class HandDSP : public hart::DSP<T>
{
public:
    State s;
    Tally* tally;
    Counted counted;
    bool chained;
    explicit HandDSP (Tally* t, bool inChain = false): tally (t), chained (inChain) {}
    HandDSP (const HandDSP& o): hart::DSP<T> (o), s (o.s), tally (o.tally), counted (o.counted), chained (o.chained) { ++tally->copies; }
    HandDSP (HandDSP&& o) noexcept: hart::DSP<T> (std::move (o)), s (o.s), tally (o.tally), counted (std::move (o.counted)), chained (o.chained) { ++tally->moves; }
    void prepare (double, size_t, size_t, size_t) override { ++s.calls; Fault::tick ("effect prepare"); }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers& env) override
    {
        ++s.calls;
        Fault::tick ("effect process");
        const auto e = env.find (3);
        const Planes<T> p = planesOf (in);
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
                out[c][f] = (T) (p[c % p.size()][f] * 0.5 + s.value + 1e-3 * (double) ((s.pos + f) % 89) + (e == env.end() ? 0.0 : 1e-2 * std::fmod (e->second[f], 50.0)));
        s.pos += in.getNumFrames();
        if (! chained) append (Sink<T>::out(), out);
    }
    void reset() override { ++s.calls; s.pos = 0; Fault::tick ("effect reset"); }
    void setValue (int, double v) override { ++s.calls; s.value = v; Fault::tick ("effect setValue"); }
    double getValue (int) const override { return s.value; }
    bool supportsChannelLayout (size_t, size_t) const override { Fault::tick ("effect supportsChannelLayout"); return true; }
    bool supportsSampleRate (double) const override { Fault::tick ("effect supportsSampleRate"); return true; }
    bool supportsEnvelopeFor (int id) const override { return id == 3; }
    void represent (std::ostream& o) const override { o << "HandDSP()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { Fault::tick ("effect copy"); return std::unique_ptr<hart::DSP<T>> (new HandDSP (*this)); }
    std::unique_ptr<hart::DSP<T>> move() override { Fault::tick ("effect move"); return std::unique_ptr<hart::DSP<T>> (new HandDSP (std::move (*this))); }
};

/// cannot be copied or moved
template <typename SampleType> class PinnedDSP : public hart::DSP<SampleType>
{
public:
    HandDSP<SampleType> inner;
    Counted counted;
    explicit PinnedDSP (Tally* t): inner (t) {}
    PinnedDSP (const PinnedDSP&) = delete;
    PinnedDSP (PinnedDSP&&) = delete;
    void prepare (double a, size_t b, size_t c, size_t d) override { inner.prepare (a, b, c, d); }
    void process (const hart::AudioBuffer<SampleType>& in, hart::AudioBuffer<SampleType>& out, const hart::EnvelopeBuffers& env) override { inner.process (in, out, env); }
    void reset() override { inner.reset(); }
    void setValue (int id, double v) override { inner.setValue (id, v); }
    double getValue (int id) const override { return inner.getValue (id); }
    bool supportsChannelLayout (size_t a, size_t b) const override { return inner.supportsChannelLayout (a, b); }
    bool supportsEnvelopeFor (int id) const override { return id == 3; }
    void represent (std::ostream& o) const override { o << "PinnedDSP()"; }
    HART_DSP_FORBID_COPY_AND_MOVE
};

template <typename T> class HandSignal : public hart::Signal<T>
{
public:
    State s;
    Counted counted;
    bool supportsNumChannels (size_t) const override { Fault::tick ("signal supportsNumChannels"); return true; }
    bool supportsSampleRate (double) const override { Fault::tick ("signal supportsSampleRate"); return true; }
    void prepare (double, size_t, size_t) override { ++s.calls; Fault::tick ("signal prepare"); }
    void renderNextBlock (hart::AudioBuffer<T>& o) override
    {
        ++s.calls;
        Fault::tick ("signal render");
        for (size_t c = 0; c < o.getNumChannels(); ++c)
            for (size_t f = 0; f < o.getNumFrames(); ++f) o[c][f] = indexValue<T> (c, s.pos + f, o.getNumChannels(), 7);
        s.pos += o.getNumFrames();
    }
    void reset() override { ++s.calls; s.pos = 0; Fault::tick ("signal reset"); }
    void represent (std::ostream& o) const override { o << "HandSignal()"; }
    std::unique_ptr<hart::Signal<T>> copy() const override { Fault::tick ("signal copy"); return std::unique_ptr<hart::Signal<T>> (new HandSignal (*this)); }
    std::unique_ptr<hart::Signal<T>> move() override { Fault::tick ("signal move"); return std::unique_ptr<hart::Signal<T>> (new HandSignal (std::move (*this))); }
};

template <typename T> class HandMatcher : public hart::Matcher<T>
{
public:
    State s;
    Counted counted;
    bool perBlock = true;
    size_t failAt = (size_t) -1;
    void prepare (double, size_t, size_t) override { ++s.calls; Fault::tick ("matcher prepare"); }
    bool match (const hart::AudioBuffer<T>& a) override
    {
        ++s.calls;
        Fault::tick ("matcher match");
        const bool bad = failAt >= s.pos && failAt < s.pos + a.getNumFrames();
        s.value = bad ? (double) (failAt - s.pos) : 0;
        s.pos += a.getNumFrames();
        return ! bad;
    }
    bool canOperatePerBlock() override { return perBlock; }
    void reset() override { ++s.calls; s.pos = 0; Fault::tick ("matcher reset"); }
    hart::MatcherFailureDetails getFailureDetails() const override
    {
        Fault::tick ("matcher getFailureDetails");
        hart::MatcherFailureDetails d;
        d.frame = (size_t) s.value;
        d.channel = 0;
        d.description = "made to fail";
        return d;
    }
    void represent (std::ostream& o) const override { Fault::tick ("matcher represent"); o << "HandMatcher()"; }
    std::unique_ptr<hart::Matcher<T>> copy() const override { Fault::tick ("matcher copy"); return std::unique_ptr<hart::Matcher<T>> (new HandMatcher (*this)); }
    std::unique_ptr<hart::Matcher<T>> move() override { Fault::tick ("matcher move"); return std::unique_ptr<hart::Matcher<T>> (new HandMatcher (std::move (*this))); }
};

class HandEnvelope : public hart::Envelope
{
public:
    State s;
    Counted counted;
    using hart::Envelope::renderNextBlock;
    void renderNextBlock (size_t n, std::vector<double>& v) override
    {
        ++s.calls;
        Fault::tick ("envelope render");
        if (v.size() != n) v.resize (n);
        for (size_t i = 0; i < n; ++i) v[i] = (double) (s.pos + i);
        s.pos += n;
    }
    void prepare (double, size_t) override { ++s.calls; Fault::tick ("envelope prepare"); }
    void reset() override { ++s.calls; s.pos = 0; Fault::tick ("envelope reset"); }
    std::unique_ptr<hart::Envelope> copy() const override { Fault::tick ("envelope copy"); return std::unique_ptr<hart::Envelope> (new HandEnvelope (*this)); }
};

/// the effect under test, whatever its class
template <typename T> static State* stateOf (hart::DSP<T>* d)
{
    if (auto h = dynamic_cast<HandDSP<T>*> (d)) return &h->s;
    if (auto p = dynamic_cast<PinnedDSP<T>*> (d)) return &p->inner.s;
    return nullptr;
}

struct Plan
{
    int way = 0;  // 0 lvalue, 1 const lvalue, 2 moved, 3 unique_ptr of the class, 4 unique_ptr of the base, 5 pinned in unique_ptr
    bool automated = false, chainAutomated = false, chained = false;
    int chainWay = 0;  // 0 copied, 1 moved, 2 unique_ptr, 3.. copied by other spellings
    struct Chk { bool perBlock, assertion, shouldPass, moved; size_t failAt; };
    std::vector<Chk> checks;
    std::vector<double> values;
    int runs = 1;
    std::string wav;
    double startValue = 0;
};

struct Result
{
    std::vector<uint64_t> hashes;   // of the output of each run
    std::vector<std::string> verdicts;
    std::string problem, problemKey;
};

/// hands over, runs as often as planned, each time with the effect that came back
template <typename T> static Result play (const Plan& p, const AudioConfig<T>& c, bool faulty)
{
    Result res;
    auto problem = [&] (const std::string& key, const std::string& what) { if (res.problem.empty()) { res.problemKey = key; res.problem = what; } };
    Tally tally, chainTally;
    HandSignal<T> signal;
    HandEnvelope env, chainEnv;
    HandDSP<T> link (&chainTally, true);
    std::vector<HandMatcher<T>> matchers;
    std::unique_ptr<DSP<T>> back;
    HandDSP<T> original (&tally);
    original.s.value = p.startValue;
    original.s.calls = 5;
    original.s.pos = 11;
    const long armed = Fault::left();
    Fault::left() = -1;  // the preparations do not fail
    for (auto& k : p.checks)
    {
        matchers.emplace_back();
        matchers.back().perBlock = k.perBlock;
        matchers.back().failAt = k.failAt;
    }
    if (p.automated) original.withEnvelope (3, env);
    if (p.chained)
    {
        if (p.chainAutomated) link.withEnvelope (3, chainEnv);
        if (p.chainWay == 0) signal.followedBy (link);
        else if (p.chainWay == 1) signal.followedBy (HandDSP<T> (link));
        else if (p.chainWay == 3) signal >> link;
        else if (p.chainWay == 4) std::move (signal) >> link;
        else if (p.chainWay == 5) { const DSP<T>& abstract = link; signal.followedBy (abstract); }
        else if (p.chainWay == 6) { const HandDSP<T>& k = link; signal >> k; }
        else signal.followedBy (std::unique_ptr<DSP<T>> (new HandDSP<T> (link)));
    }
    Fault::left() = armed;
    const State linkBefore = link.s, signalBefore = signal.s, originalBefore = original.s;
    const size_t chainCopies = chainTally.copies;
    (void) chainCopies;

    for (int run = 0; run < p.runs; ++run)
    {
        Sink<T>::out().clear();
        const DSP<T>* given = nullptr;
        tally = Tally();
        auto o = observe ([&]
        {
            auto build = [&] (hart::AudioTestBuilder<T> b)
            {
                b.withSampleRate (c.rate).withDuration (c.duration).withBlockSize (c.block).withInputChannels (c.in).withOutputChannels (c.out).withInputSignal (signal);
                for (size_t i = 0; i < p.values.size(); ++i) b.withValue ((int) i, p.values[i]);
                for (size_t i = 0; i < matchers.size(); ++i)
                {
                    auto& k = p.checks[i];
                    HandMatcher<T> spare (matchers[i]);
                    if (k.assertion)
                    {
                        if (k.shouldPass) { if (k.moved) b.assertTrue (std::move (spare)); else b.assertTrue (matchers[i]); }
                        else { if (k.moved) b.assertFalse (std::move (spare)); else b.assertFalse (matchers[i]); }
                    }
                    else
                    {
                        if (k.shouldPass) { if (k.moved) b.expectTrue (std::move (spare)); else b.expectTrue (matchers[i]); }
                        else { if (k.moved) b.expectFalse (std::move (spare)); else b.expectFalse (matchers[i]); }
                    }
                }
                if (! p.wav.empty()) b.saveOutputTo (p.wav);
                back = b.process();
            };
            if (run > 0 && back != nullptr)
            {
                given = back.get();
                build (hart::processAudioWith (std::move (back)));
            }
            else if (p.way == 0) build (hart::processAudioWith (original));
            else if (p.way == 1) { const HandDSP<T>& k = original; build (hart::processAudioWith (k)); }
            else if (p.way == 2) { HandDSP<T> spare (original); tally = Tally(); build (hart::processAudioWith (std::move (spare))); }
            else if (p.way == 3) { std::unique_ptr<HandDSP<T>> u (new HandDSP<T> (original)); tally = Tally(); given = u.get(); build (hart::processAudioWith (std::move (u))); }
            else if (p.way == 4) { std::unique_ptr<DSP<T>> u (new HandDSP<T> (original)); tally = Tally(); given = u.get(); build (hart::processAudioWith (std::move (u))); }
            else
            {
                std::unique_ptr<PinnedDSP<T>> u (new PinnedDSP<T> (&tally));
                u->inner.s.value = p.startValue;
                const long keep = Fault::left();
                Fault::left() = -1;
                if (p.automated) u->withEnvelope (3, env);
                Fault::left() = keep;
                given = u.get();
                build (hart::processAudioWith (std::move (u)));
            }
        });
        std::string verdict = hv::cat (o.errorType, "|", o.error);
        for (auto& e : o.expects) verdict += "|" + e;
        res.verdicts.push_back (verdict);
        res.hashes.push_back (hashOf (Sink<T>::out()));
        if (! o.threw)
        {
            if (back == nullptr) problem ("nothing-returned", "a successful run returned no effect");
            else
            {
                const State* s = stateOf (back.get());
                if (s == nullptr) problem ("other-class", "the returned effect is of another class");
                else
                {
                    if (s->pos != c.frames) problem ("not-the-processor", hv::cat ("the returned effect has processed ", s->pos, " frames of ", c.frames));
                    const double want = p.values.empty() ? p.startValue : p.values.back();
                    if (! sameBits (s->value, want)) problem ("value-lost", hv::cat ("the returned effect has value ", s->value, " instead of ", want));
                }
                if (given != nullptr && back.get() != given) problem ("not-the-same", "an effect given in a smart pointer did not come back itself");
                if (p.automated != back->hasEnvelopeFor (3)) problem ("envelope-lost", "the returned effect has lost its automation");
            }
            if (given != nullptr && (tally.copies || tally.moves)) problem ("pointer-copied", hv::cat ("an effect given in a smart pointer was copied ", tally.copies, " and moved ", tally.moves, " times"));
            if (run == 0 && p.way == 2 && tally.copies) problem ("rvalue-copied", hv::cat ("an effect given as an rvalue was copied ", tally.copies, " times"));
        }
        if (! (original.s == originalBefore)) problem ("original-touched", "the caller's effect went from " + originalBefore.str() + " to " + original.s.str());
        if (original.hasEnvelopeFor (3) != p.automated) problem ("original-touched", "the caller's effect has lost its automation");
        if (! (signal.s == signalBefore)) problem ("signal-touched", "the caller's signal went from " + signalBefore.str() + " to " + signal.s.str());
        if (! (link.s == linkBefore)) problem ("chain-effect-touched", "the caller's chain effect changed");
        if (link.hasEnvelopeFor (3) != (p.chained && p.chainAutomated)) problem ("chain-effect-touched", "the caller's chain effect has lost its automation");
        if (! (env.s == State()) || ! (chainEnv.s == State())) problem ("envelope-touched", "the caller's envelope changed");
        for (auto& m : matchers) if (! (m.s == State())) problem ("matcher-touched", "the caller's matcher changed");
        if (faulty) break;
    }
    return res;
}

template <typename T> static void followByName (hv::Rng& r, hart::Signal<T>& s, hart::DSP<T>& d)
{
    auto as = [&] (auto& k)
    {
        switch (r.range (0, 3))
        {
            case 0: s.followedBy (k); break;
            case 1: s >> k; break;
            case 2: std::move (s) >> k; break;
            default: { const auto& c = k; s >> c; }
        }
    };
    if (auto g = dynamic_cast<hart::GainDb<T>*> (&d)) as (*g);
    else if (auto l = dynamic_cast<hart::GainLinear<T>*> (&d)) as (*l);
    else if (auto h = dynamic_cast<hart::HardClip<T>*> (&d)) as (*h);
    else s.followedBy (d);
}

template <typename T> static void stock (hv::Ctx& cx)
{
    auto& r = cx.rng;
    auto c = genConfig<T> (r, 4000, true, 8);
    const FxSpec fx = genFx (r, (double) c.frames / c.rate);
    auto made = fx.make<T>();
    const double other = r.uni (-20, 2);
    const bool set = r.chance (0.6) && fx.kind != 1;
    const SigSpec sig = genSig (r, c.rate, c.in, c.frames, "", 2);
    auto signal = sig.make<T>();
    // effects of the caller that are put in the signal's chain by name
    std::vector<FxSpec> linkSpecs;
    std::vector<std::unique_ptr<hart::DSP<T>>> links;
    for (int i = (int) r.range (0, 2); i > 0; --i)
    {
        linkSpecs.push_back (genFx (r, (double) c.frames / c.rate));
        links.push_back (linkSpecs.back().make<T>());
        followByName (r, *signal, *links.back());
    }
    // a reference signal of the caller
    const SigSpec refSpec = genSig (r, c.rate, c.out, c.frames, "", 2);
    auto ref = refSpec.make<T>();
    const hart::EqualsTo<T> equals (*ref, 1e9);
    ProbeMatcher<T> m;
    m.perBlock = r.chance (0.5);
    auto run = [&] (hart::AudioTestBuilder<T> b)
    {
        m.log->seen.clear();
        b.withSampleRate (c.rate).withDuration (c.duration).withBlockSize (c.block).withInputChannels (c.in).withOutputChannels (c.out).withInputSignal (*signal).expectTrue (m);
        if (set) b.withValue (0, other);
        b.expectTrue (equals);
        return b.process();
    };
    auto hash = [&] { return hashOf (m.log->seen); };
    cx.describe = "stock " + c.str() + " " + fx.str() + " on " + sig.str();
    cx.nontrivial (cx.describe);
    cx.saw ("stock effects");
    const auto before = made->getValue (0);
    auto first = run (hart::processAudioWith (*made));
    const auto h1 = hash();
    if (! sameBits (before, made->getValue (0))) cx.viol ("original-touched", "the value of the caller's effect changed");
    const double want = set ? other : before;
    if (! sameBits (first->getValue (0), want) && ! (std::abs (first->getValue (0) - want) <= 1e-6 * (1 + std::abs (want)))) cx.viol ("value-lost", hv::cat ("the returned effect has value ", first->getValue (0), " instead of ", want));
    if (made->hasEnvelopeFor (0) != fx.hasEnv || first->hasEnvelopeFor (0) != fx.hasEnv) cx.viol ("envelope-lost", "an effect has lost its automation");
    auto* raw = first.get();
    auto second = run (hart::processAudioWith (std::move (first)));
    if (second.get() != raw) cx.viol ("not-the-same", "an effect given in a smart pointer did not come back itself");
    if (hash() != h1) cx.viol ("not-reusable", "the returned effect gives another result when it is run again");
    auto third = run (hart::processAudioWith (std::move (*second)));
    if (hash() != h1) cx.viol ("not-reusable", "the effect gives another result after it was moved into a run");
    for (size_t i = 0; i < links.size(); ++i)
    {
        cx.saw ("stock effects in the chain by name");
        if (links[i]->hasEnvelopeFor (0) != linkSpecs[i].hasEnv) cx.viol ("chain-effect-touched", "the caller's chain effect has lost its automation: " + linkSpecs[i].str());
        if (! sameBits (links[i]->getValue (0), linkSpecs[i].make<T>()->getValue (0))) cx.viol ("chain-effect-touched", "the caller's chain effect has another value: " + linkSpecs[i].str());
    }
    {
        // the reference is as it was
        auto twin = refSpec.make<T>();
        start (*ref, c.rate, c.out, c.block);
        start (*twin, c.rate, c.out, c.block);
        if (hashOf (renderAll (*ref, c.out, { c.block, 1 })) != hashOf (renderAll (*twin, c.out, { c.block, 1 }))) cx.viol ("signal-touched", "a reference signal of the caller differs after the run: " + refSpec.str());
    }
    auto fourth = run (hart::processAudioWith (std::move (made)));
    if (hash() != h1) cx.viol ("original-touched", "the caller's effect gives another result than its copy did");
}

template <typename T> static void pinned (hv::Ctx& cx)
{
    Tally t;
    PinnedDSP<T> d (&t);
    const State before = d.inner.s;
    auto a = observe ([&] { hart::processAudioWith (d).withInputSignal (HandSignal<T>()).process(); });
    auto b = observe ([&] { hart::processAudioWith (std::move (d)).withInputSignal (HandSignal<T>()).process(); });
    if (a.errorType != "Unsupported") cx.viol ("pinned-copied", "an effect that cannot be copied was accepted as an lvalue: " + a.errorType);
    if (b.errorType != "Unsupported") cx.viol ("pinned-moved", "an effect that cannot be moved was accepted as an rvalue: " + b.errorType);
    if (! (d.inner.s == before)) cx.viol ("original-touched", "an effect was touched although it was refused");
    cx.saw ("refused hand-overs", 2);

    // one that sits in the chain of a signal is used as it is
    auto& r = cx.rng;
    Tally u;
    std::unique_ptr<DSP<T>> link (new PinnedDSP<T> (&u));
    State* state = stateOf (link.get());
    link->setValue (0, 0.25);
    if (r.chance (0.5)) link->withEnvelope (3, HandEnvelope());
    const bool automated = link->hasEnvelopeFor (3);
    HandSignal<T> s;
    const size_t frames = (size_t) r.range (1, 50);
    Planes<T> got;
    auto o = observe ([&]
    {
        switch (r.range (0, 2))
        {
            case 0: s.followedBy (std::move (link)); break;
            case 1: s >> std::move (link); break;
            default: std::move (s) >> std::move (link); break;
        }
        if (r.chance (0.5)) s.followedBy (HandDSP<T> (&u, true));
        hart::Signal<T>& base = s;
        base.resetWithDSPChain();
        base.prepareWithDSPChain (44100.0, 1, frames);
        hart::AudioBuffer<T> buffer (1, frames);
        base.renderNextBlockWithDSPChain (buffer);
        append (got, buffer);
    });
    if (o.threw) cx.viol ("pointer-copied", "a signal cannot be used with an effect that was given in a smart pointer: " + o.errorType + " " + o.error);
    else if (state->pos != frames) cx.viol ("not-the-same", hv::cat ("an effect given to a signal in a smart pointer has processed ", state->pos, " frames of ", frames));
    else if (! sameBits (state->value, 0.25)) cx.viol ("value-lost", "an effect given to a signal in a smart pointer has lost its value");
    (void) automated;
    // such a signal cannot be copied, and moving it keeps the effect
    auto refused = observe ([&] { auto k = s.copy(); });
    if (refused.errorType != "Unsupported") cx.viol ("pinned-copied", "a signal with an effect that cannot be copied was copied: " + refused.errorType);
    auto moved = observe ([&]
    {
        std::unique_ptr<hart::Signal<T>> k = s.move();
        k->resetWithDSPChain();
        k->prepareWithDSPChain (44100.0, 1, frames);
        hart::AudioBuffer<T> buffer (1, frames);
        k->renderNextBlockWithDSPChain (buffer);
        Planes<T> again;
        append (again, buffer);
        if (hashOf (again) != hashOf (got)) cx.viol ("not-reusable", "a signal gives other audio after it was moved");
    });
    if (moved.threw) cx.viol ("pointer-copied", "a signal with an effect that cannot be copied cannot be moved: " + moved.errorType + " " + moved.error);
    cx.saw ("pinned chain effects");
}

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const auto liveBefore = Ledger::live().size();
    const int faultsBefore = Ledger::faults();
    if (r.chance (0.1)) pinned<T> (cx);
    if (r.chance (0.2)) stock<T> (cx);
    else
    {
        auto c = genConfig<T> (r, 3000, false, 8);
        Plan p;
        p.way = (int) r.range (0, 5);
        p.automated = r.chance (0.5);
        p.chained = r.chance (0.5);
        p.chainAutomated = r.chance (0.5);
        p.chainWay = (int) r.range (0, 6);
        p.startValue = r.uni (-1, 1);
        p.runs = r.chance (0.3) ? 1 : (int) r.range (2, 4);
        for (int i = (int) r.range (0, 3); i > 0; --i) p.values.push_back (r.uni (-1, 1));
        for (int i = (int) r.range (0, 4); i > 0; --i)
            p.checks.push_back ({ r.chance (0.5), r.chance (0.3), r.chance (0.7), r.chance (0.5), r.chance (0.4) ? (size_t) r.range (0, (int64_t) c.frames - 1) : (size_t) -1 });
        const int disk = (int) r.range (0, 9);
        if (disk == 0 && c.rate < 4e9) p.wav = cx.scratch + "/h07.wav";
        if (disk == 1 && c.rate < 4e9) p.wav = cx.scratch + "/missing/h07.wav";
        static const char* ways[] = { "lvalue", "const lvalue", "rvalue", "smart pointer", "smart pointer to base", "pinned" };
        cx.describe = hv::cat (c.str(), " ", ways[p.way], " ", p.runs, " runs ", p.checks.size(), " checks", p.automated ? " automated" : "", p.chained ? " chain" : "", p.wav.empty() ? "" : " saved");
        cx.nontrivial (cx.describe);
        if (cx.index % 400 == 0) cx.sample (cx.describe);
        cx.saw (std::string ("handed over: ") + ways[p.way]);

        Fault::arm (-1);
        Result clean = play<T> (p, c, false);
        const size_t ticks = Fault::ticks();
        if (! clean.problem.empty()) cx.viol (clean.problemKey, clean.problem);
        cx.saw ("runs", clean.hashes.size());
        for (size_t i = 1; i < clean.hashes.size(); ++i)
            if (clean.hashes[i] != clean.hashes[0] || clean.verdicts[i] != clean.verdicts[0]) { cx.viol ("not-reusable", hv::cat ("run ", i + 1, " with the returned effect differs from the first")); break; }
        cx.need (Ledger::live().size() == liveBefore, "leaked-object", hv::cat (Ledger::live().size() - liveBefore, " participants remain"));

        // the same again with a fault
        const int n = cx.thorough ? 12 : 4;
        for (int i = 0; i < n; ++i)
        {
            const long at = (long) r.range (0, (int64_t) ticks - 1);
            size_t bytes[3] = { 0, 0, 0 };
            std::string key, what, where;
            bool hit = false, propagated = false;
            for (int round = 0; round < 2; ++round)
            {
                bytes[round] = hv::liveBytes();
                {
                    Fault::arm (at);
                    Result f = play<T> (p, c, true);
                    hit = ! Fault::at().empty();
                    if (round == 0 && hit) where = Fault::at();
                    Fault::arm (-1);
                    if (round == 0) { key = f.problemKey; what = f.problem; }
                    propagated = f.verdicts.back().find ("injected fault") != std::string::npos;
                    Sink<T>::out() = Planes<T>();
                    std::vector<std::string>().swap (hart::ExpectationFailureMessages::get());
                }
                if (round == 0) where.shrink_to_fit();
            }
            bytes[2] = hv::liveBytes();
            // rounds are alike, so the second one must not leave anything behind that the first did not
            if (hit)
            {
                cx.saw ("faults");
                cx.saw ("fault in " + where);
                if (! propagated) cx.viol ("fault-lost:" + where, "an error thrown by " + where + " did not reach the caller");
                if (! key.empty()) cx.viol (key, what + " (after an error in " + where + ")");
            }
            if (bytes[2] != bytes[1]) cx.viol ("leaked-memory", hv::cat ((long) (bytes[2] - bytes[1]), " bytes remain", hit ? " after an error in " + where : ""));
            if (bytes[1]) cx.saw ("memory balances");
            if (Ledger::live().size() != liveBefore) { cx.viol ("leaked-object", hv::cat (Ledger::live().size() - liveBefore, " participants remain after an error in ", where)); break; }
        }
        // errors in the past do not matter
        Result again = play<T> (p, c, false);
        if (again.hashes != clean.hashes || again.verdicts != clean.verdicts) cx.viol ("changed-by-errors", "the same run differs after others have failed");
    }
    cx.need (Ledger::live().size() == liveBefore, "leaked-object", hv::cat (Ledger::live().size() - liveBefore, " participants remain"));
    cx.need (Ledger::faults() == faultsBefore, "lifetime", "a participant was destroyed twice or used after its destruction");
}

void hv_case (hv::Ctx& cx)
{
    if (cx.rng.chance (0.5)) run<float> (cx); else run<double> (cx);
}
