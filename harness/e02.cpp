// E02: automation reaches effects sample-accurately and restarts with every run. Probe effects
// that are tested, or sit in the chain of the input or of a reference signal, record the values
// they are given; counting envelopes make every value tell its frame.
#include "stock.hpp"
using namespace hp;

struct Auto
{
    int id = 0;
    bool counting = true;
    double base = 0;
    EnvSpec curve;
    std::shared_ptr<EnvLog> log = std::make_shared<EnvLog>();
};

template <typename T> struct Fx
{
    LogPtr<T> log = newLog<T>();
    std::vector<Auto> autos;
    std::string where;
    RecordingDSP<T>* raw = nullptr;  // where blockKeys can be read, if the instance is known

    std::unique_ptr<RecordingDSP<T>> make() const
    {
        std::unique_ptr<RecordingDSP<T>> d (new RecordingDSP<T> (log));
        for (int i = -3; i < 20; ++i) d->automatable.insert (i);
        for (int i : { INT_MIN, -1000, 64, 1000, 65536, INT_MAX }) d->automatable.insert (i);
        d->keepAudio = false;
        const auto l = log;
        for (auto& a : autos)
        {
            if (a.counting) d->withEnvelope (a.id, CounterEnvelope (a.base, a.log));
            else d->withEnvelope (a.id, a.curve.make());
        }
        return d;
    }
};

template <typename T> static Fx<T> genFx (hv::Rng& r, const std::string& where, double seconds, int few)
{
    Fx<T> f;
    f.where = where;
    const int n = r.chance (0.03) ? (int) r.range (few, 30) : (int) r.range (0, few);
    std::set<int> ids;
    for (int i = 0; i < n; ++i)
    {
        Auto a;
        a.id = r.chance (0.1) ? r.pick ({ INT_MIN, -1000, 64, 1000, 65536, INT_MAX }) : (int) r.range (-3, 19);
        if (! ids.insert (a.id).second) continue;
        a.counting = r.chance (0.6);
        a.base = (double) r.range (-5, 5) * 1000000;
        a.curve = genEnv (r, seconds, false, -10, 10, 5);
        f.autos.push_back (a);
    }
    return f;
}

/// what the effect has been given since the log was cleared: `runs` runs of `frames` frames
template <typename T> static void judge (hv::Ctx& cx, const Fx<T>& f, size_t frames, size_t runs, double rate)
{
    for (auto& e : f.log->envelopeErrors) { cx.viol ("block-size", f.where + ": " + e); break; }
    size_t got = 0;
    for (size_t n : f.log->blocks) got += n;
    cx.need (got == frames * runs, "frames", hv::cat (f.where, " processed ", got, " frames instead of ", frames * runs));
    std::set<int> want;
    for (auto& a : f.autos) want.insert (a.id);
    for (auto& kv : f.log->envelopes) if (! want.count (kv.first)) cx.viol ("foreign-parameter", hv::cat (f.where, " was given automation of parameter ", kv.first, ", which has none"));
    for (auto& a : f.autos)
    {
        auto it = f.log->envelopes.find (a.id);
        if (it == f.log->envelopes.end()) { cx.viol ("missing", hv::cat (f.where, " was not given the automation of parameter ", a.id)); continue; }
        if (it->second.size() != got) { cx.viol ("missing-in-block", hv::cat (f.where, " was given ", it->second.size(), " values for ", got, " frames of parameter ", a.id)); continue; }
        for (size_t i = 0; i < got; ++i)
        {
            const size_t k = i % frames;
            const double v = it->second[i];
            const bool ok = a.counting ? v == a.base + (double) k : a.curve.matches (k, rate, v);
            if (! ok)
            {
                cx.viol (a.counting ? "wrong-frame" : "wrong-curve", hv::cat (f.where, " run ", i / frames, " frame ", k, " parameter ", a.id, ": ", v,
                    a.counting ? hv::cat (" is the value of frame ", v - a.base) : hv::cat (", the curve ", a.curve.str(), " is at ", a.curve.at ((double) (k + 1) / rate))));
                break;
            }
        }
        cx.saw (a.counting ? "counted values" : "curve values", got);
    }
    cx.saw ("automated effects", ! f.autos.empty());
    cx.saw ("effects without automation", f.autos.empty());
}


/// an instance that has been used is assigned another effect, or is given further automation
template <typename T> static void become (hv::Ctx& cx, Fx<T>& f, hart::DSP<T>& d, double seconds)
{
    auto& r = cx.rng;
    auto* probe = dynamic_cast<RecordingDSP<T>*> (&d);
    if (probe == nullptr) return;
    if (r.chance (0.3))
    {
        Auto a;
        a.id = (int) r.range (-3, 19);
        a.base = 3e7;
        probe->withEnvelope (a.id, CounterEnvelope (a.base, a.log));
        f.autos.erase (std::remove_if (f.autos.begin(), f.autos.end(), [&] (const Auto& b) { return b.id == a.id; }), f.autos.end());
        f.autos.push_back (a);
        cx.saw ("automation added between runs");
        return;
    }
    auto kept = f.where;
    f = genFx<T> (r, kept, seconds, 4);
    auto other = f.make();
    if (r.chance (0.5)) *probe = *other; else *probe = std::move (*other);
    cx.saw ("instances assigned between runs");
}

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    auto c = genConfig<T> (r, 30000, false, 16);
    if (c.frames == 0) return;
    const double seconds = (double) c.frames / c.rate;
    Fx<T> tested = genFx<T> (r, "tested effect", seconds, 5);
    std::vector<Fx<T>> chain, ref;
    for (int i = (int) r.range (0, 3); i > 0; --i) chain.push_back (genFx<T> (r, hv::cat ("effect ", chain.size(), " of the input"), seconds, 3));
    const bool withRef = r.chance (0.4);
    if (withRef) for (int i = (int) r.range (1, 2); i > 0; --i) ref.push_back (genFx<T> (r, hv::cat ("effect ", ref.size(), " of the reference"), seconds, 3));

    IndexSignal<T> input (newLog<T>());
    for (auto& f : chain) input.followedBy (std::move (*f.make()));
    IndexSignal<T> reference (newLog<T>());
    for (auto& f : ref) reference.followedBy (std::move (*f.make()));

    size_t count = tested.autos.size();
    for (auto& f : chain) count += f.autos.size();
    for (auto& f : ref) count += f.autos.size();
    cx.describe = c.str() + hv::cat (" chain=", chain.size(), " ref=", ref.size(), " automations=", count);
    for (auto& a : tested.autos) if (! a.counting) cx.describe += hv::cat (" ", a.id, ":", a.curve.str());
    cx.nontrivial (cx.describe);
    if (cx.index % 500 == 0) cx.sample (cx.describe);

    const int runs = (int) r.range (1, 4);
    std::unique_ptr<hart::DSP<T>> dsp = tested.make();
    for (int i = 0; i < runs; ++i)
    {
        if (i > 0 && r.chance (0.6))
        {
            auto d = genConfig<T> (r, 20000, false, 16);
            if (d.frames > 0) { d.in = c.in; d.out = c.out; c = d; }
        }
        if (i > 0 && r.chance (0.25)) become (cx, tested, *dsp, seconds);
        // the curves were made for other durations; they are followed all the same
        // signals that have been used elsewhere, and not been reset since
        for (hart::Signal<T>* used : { (hart::Signal<T>*) &input, (hart::Signal<T>*) &reference })
            if (r.chance (0.3))
            {
                const size_t n = (size_t) r.range (1, 40);
                used->prepareWithDSPChain (c.rate, 1, n);
                for (int k = (int) r.range (1, 3); k > 0; --k) { hart::AudioBuffer<T> used1 (1, n); used->renderNextBlockWithDSPChain (used1); }
                cx.saw ("used signals");
            }
        auto clear = [] (Fx<T>& f) { f.log->clear(); for (auto& a : f.autos) *a.log = EnvLog(); };
        clear (tested);
        for (auto& f : chain) clear (f);
        for (auto& f : ref) clear (f);
        // the same instance, a moved one or a copy of it
        const int how = (int) r.range (0, 2);
        if (how == 1) dsp = dsp->copy();
        if (how == 2) dsp = dsp->move();
        const auto o = observe ([&]
        {
            hart::AudioTestBuilder<T> b (std::move (dsp));
            b.withSampleRate (c.rate).withBlockSize (c.block).withDuration (c.duration).withInputChannels (c.in).withOutputChannels (c.out).withInputSignal (input);
            if (r.chance (0.3)) b.withValue ((int) r.range (-3, 19), 0.5);
            if (withRef) { if (r.chance (0.7)) b.expectTrue (hart::EqualsTo<T> (reference, 1e6)); else b.expectFalse (hart::EqualsTo<T> (reference, 1e6)); }
            dsp = b.process();
        });
        cx.need (! o.threw, "run-error", o.error);
        if (o.threw || dsp == nullptr) return;
        const std::string tag = hv::cat ("run ", i, ": ");
        auto check = [&] (Fx<T>& f)
        {
            for (auto& a : f.autos)
                if (a.counting)
                    cx.need (a.log->prepares == 0 || std::abs (a.log->rate - c.rate) < 1e-9 * c.rate, "rate", hv::cat (f.where, ": an envelope was prepared for ", a.log->rate, " Hz in a run at ", c.rate, " Hz"));
            judge (cx, f, c.frames, 1, c.rate);
        };
        check (tested);
        for (auto& f : chain) check (f);
        for (auto& f : ref) check (f);
        auto* probe = dynamic_cast<RecordingDSP<T>*> (dsp.get());
        std::set<int> want;
        for (auto& a : tested.autos) want.insert (a.id);
        if (probe != nullptr)
            for (auto& keys : probe->blockKeys) cx.need (keys == want, "keys", hv::cat ("the tested effect was given automation of ", keys.size(), " parameters instead of ", want.size(), " in a block"));
        cx.saw ("runs");
        if (i > 0) cx.saw ("repeated runs");
        if (c.frames % c.block != 0) cx.saw ("runs with short last blocks");
    }
}

/// the documented methods driven by another host, in any partition and after resets at any time
template <typename T> static void driven (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const double rate = hv::genRate (r);
    const size_t total = hv::genSize (r, 3000), block = hv::genSize (r, 1024);
    Fx<T> f = genFx<T> (r, "driven effect", (double) total / rate, 6);
    auto d = f.make();
    cx.describe = hv::cat (hv::typeTag<T>(), " driven ", rate, " Hz ", total, " frames block ", block, " automations ", f.autos.size());
    cx.nontrivial (hv::cat (cx.describe, cx.index));
    for (int run = 0; run < 3; ++run)
    {
        if (run > 0 && r.chance (0.4)) become (cx, f, *d, (double) total / rate);
        f.log->clear();
        if (r.chance (0.5)) { d->resetWithEnvelopes(); d->prepareWithEnvelopes (rate, 1, 1, block); }
        else { d->prepareWithEnvelopes (rate, 1, 1, block); d->resetWithEnvelopes(); }
        const size_t n = r.chance (0.5) ? total : (size_t) r.range (1, (int64_t) total);
        for (size_t k : hv::genPartition (r, n, block))
        {
            hart::AudioBuffer<T> a (1, k), b (1, k);
            if (r.chance (0.5)) d->processWithEnvelopes (a, b); else d->processWithEnvelopes (a, a);
        }
        judge (cx, f, n, 1, rate);
        cx.saw ("driven runs");
    }
}

void hv_case (hv::Ctx& cx)
{
    const bool d = cx.rng.chance (0.3);
    if (cx.rng.chance (0.5)) { if (d) driven<float> (cx); else run<float> (cx); }
    else { if (d) driven<double> (cx); else run<double> (cx); }
}
