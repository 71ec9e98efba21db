// S02: copies of signals are independent and equivalent. A set of instances is copied, moved,
// assigned, extended, rendered, reset and destroyed in random order while every rendered block
// is compared with what that instance's specification renders on its own.
#include "stock.hpp"
using namespace hp;

template <typename T> struct Instance
{
    std::unique_ptr<hart::Signal<T>> sig;
    SigSpec spec;
    bool started = false;
    size_t pos = 0;
    Planes<T> want;
    int id = 0;
};

template <typename T, typename Base> static std::unique_ptr<hart::Signal<T>> typedCopy (hart::Signal<T>& s, bool move)
{
    auto* d = dynamic_cast<Base*> (&s);
    if (d == nullptr) return nullptr;
    if (move) return std::unique_ptr<hart::Signal<T>> (new Base (std::move (*d)));
    return std::unique_ptr<hart::Signal<T>> (new Base (*d));
}

template <typename T> static std::unique_ptr<hart::Signal<T>> anyTypedCopy (hart::Signal<T>& s, bool move)
{
    std::unique_ptr<hart::Signal<T>> c;
    if (! c) c = typedCopy<T, hart::SineWave<T>> (s, move);
    if (! c) c = typedCopy<T, hart::Silence<T>> (s, move);
    if (! c) c = typedCopy<T, hart::WhiteNoise<T>> (s, move);
    if (! c) c = typedCopy<T, hart::SineSweep<T>> (s, move);
    if (! c) c = typedCopy<T, hart::WavFile<T>> (s, move);
    if (! c) c = typedCopy<T, IndexSignal<T>> (s, move);
    return c;
}

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const double rate = hv::genRate (r);
    const size_t channels = (size_t) r.range (1, 3), total = (size_t) r.range (40, cx.thorough ? 1500 : 400), block = hv::genSize (r, 120);
    const size_t liveBefore = Ledger::live().size();
    const int faultsBefore = Ledger::faults();
    std::string trace;
    {
        std::vector<std::unique_ptr<Instance<T>>> all;
        int nextId = 0;
        auto addNew = [&] (std::unique_ptr<hart::Signal<T>> s, const SigSpec& spec)
        {
            auto i = std::unique_ptr<Instance<T>> (new Instance<T>());
            i->sig = std::move (s);
            i->spec = spec;
            i->id = nextId++;
            all.push_back (std::move (i));
        };
        auto begin = [&] (Instance<T>& i)
        {
            if (r.chance (0.5)) start (*i.sig, rate, channels, block);
            else { i.sig->prepareWithDSPChain (rate, channels, block); i.sig->resetWithDSPChain(); }
            i.want = renderFresh<T> (i.spec, rate, channels, total, block);
            i.started = true;
            i.pos = 0;
        };
        auto renderSome = [&] (Instance<T>& i, size_t n)
        {
            n = std::min ({ n, block, total - i.pos });
            if (n == 0) return;
            const auto b = renderBlock (*i.sig, channels, n);
            double top = 1;
            for (size_t c = 0; c < channels; ++c) for (T v : i.want[c]) top = std::max (top, std::abs ((double) v));
            for (size_t c = 0; c < channels; ++c)
                for (size_t f = 0; f < n; ++f)
                    if (! (std::abs ((double) b[c][f] - (double) i.want[c][i.pos + f]) <= 1e-6 * top))
                    {
                        cx.viol ("differs:" + i.spec.str().substr (0, 5) + (i.spec.chain.empty() ? "" : "+chain"),
                                 hv::cat ("instance ", i.id, " (", i.spec.str(), ") channel ", c, " frame ", i.pos + f, ": got ", b[c][f], ", want ", i.want[c][i.pos + f], "; history: ", trace));
                        i.want[c][i.pos + f] = b[c][f];
                        i.pos += n;
                        return;
                    }
            i.pos += n;
            cx.saw ("samples compared", n * channels);
        };
        auto finish = [&] (Instance<T>& i)
        {
            if (! i.started) begin (i);
            while (i.pos < total) renderSome (i, block);
        };

        const int roots = (int) r.range (1, 2);
        for (int i = 0; i < roots; ++i)
        {
            SigSpec s = genSig (r, rate, channels, total, cx.scratch, 3, true, true);
            if (s.kind == 4)
            {
                s.wav = cx.scratch + "/s02-" + std::to_string (i) + ".wav";
                makeFloatWav (r, s.wav, (unsigned) channels + 1, total / 2 + 1, (unsigned) rate);
            }
            if (r.chance (0.35)) s.kind = r.chance (0.3) ? 1 : 5;  // those that can be assigned
            addNew (s.make<T>(), s);
            cx.describe += s.str() + "; ";
        }
        const int ops = (int) r.range (8, 30);
        for (int k = 0; k < ops && ! all.empty(); ++k)
        {
            const size_t at = (size_t) r.range (0, (int64_t) all.size() - 1);
            Instance<T>& i = *all[at];
            switch ((int) r.range (0, 9))
            {
                case 0: case 1:  // copy, in whatever state the original is
                {
                    if (all.size() > 7) break;
                    const bool virt = r.chance (0.5);
                    auto c = virt ? i.sig->copy() : anyTypedCopy<T> (*i.sig, false);
                    trace += hv::cat (" copy", virt ? "() " : " ", i.id, "->", nextId, i.started ? hv::cat ("@", i.pos) : "");
                    addNew (std::move (c), i.spec);
                    cx.saw ("copies");
                    if (i.started && i.pos > 0) cx.saw ("copies in the middle");
                    break;
                }
                case 2:  // move; the source is gone
                {
                    const bool virt = r.chance (0.5);
                    auto c = virt ? i.sig->move() : anyTypedCopy<T> (*i.sig, true);
                    trace += hv::cat (" move", virt ? "() " : " ", i.id, "->", nextId);
                    const SigSpec spec = i.spec;
                    if (r.chance (0.7)) all.erase (all.begin() + (long) at);  // else the empty shell lives on
                    else { all[at]->sig.reset(); all.erase (all.begin() + (long) at); }
                    addNew (std::move (c), spec);
                    cx.saw ("moves");
                    break;
                }
                case 3:  // extend
                {
                    const FxSpec f = genFx (r, (double) total / rate, true, true);
                    trace += hv::cat (" extend ", i.id, " with ", f.str());
                    if (r.chance (0.5)) i.sig->followedBy (f.make<T>());
                    else { auto d = f.make<T>(); const hart::DSP<T>& ref = *d; i.sig->followedBy (ref); }
                    i.spec.chain.push_back (f);
                    i.started = false;  // the new effect has not been prepared
                    cx.saw ("extensions");
                    break;
                }
                case 4:  // destroy
                    if (all.size() < 2) break;
                    trace += hv::cat (" destroy ", i.id);
                    all.erase (all.begin() + (long) at);
                    cx.saw ("destructions");
                    break;
                case 5:  // reset alone
                    if (! i.started) break;
                    trace += hv::cat (" reset ", i.id, "@", i.pos);
                    i.sig->resetWithDSPChain();
                    i.pos = 0;
                    cx.saw ("resets");
                    break;
                case 6:  // assignment between signals of the same type
                {
                    Instance<T>& j = *all[(size_t) r.range (0, (int64_t) all.size() - 1)];
                    auto* a = dynamic_cast<IndexSignal<T>*> (i.sig.get());
                    auto* b = dynamic_cast<IndexSignal<T>*> (j.sig.get());
                    auto* sa = dynamic_cast<hart::Silence<T>*> (i.sig.get());
                    auto* sb = dynamic_cast<hart::Silence<T>*> (j.sig.get());
                    if (! ((a && b) || (sa && sb))) break;
                    const bool moving = &i != &j && r.chance (0.3);
                    trace += hv::cat (moving ? " move-assign " : " assign ", i.id, "=", j.id);
                    if (a) { if (moving) *a = std::move (*b); else *a = *b; }
                    else { if (moving) *sa = std::move (*sb); else *sa = *sb; }
                    if (&i != &j) { i.spec = j.spec; i.started = false; }
                    if (moving) all.erase (std::find_if (all.begin(), all.end(), [&] (const std::unique_ptr<Instance<T>>& x) { return x.get() == &j; }));
                    cx.saw (moving ? "move assignments" : "assignments");
                    break;
                }
                default:  // render
                    if (! i.started || i.pos == total) begin (i);
                    trace += hv::cat (" render ", i.id, "@", i.pos);
                    for (int n = (int) r.range (1, 4); n > 0; --n) renderSome (i, (size_t) r.range (1, (int64_t) block));
                    cx.saw ("renderings");
            }
        }
        for (auto& i : all) finish (*i);
        cx.describe += trace;
        cx.nontrivial (cx.describe);
        if (cx.index % 40 == 0) cx.sample (cx.describe.substr (0, 400));
    }
    cx.need (Ledger::live().size() == liveBefore, "left-over", hv::cat (Ledger::live().size() - liveBefore, " objects are still alive at the end"));
    cx.need (Ledger::faults() == faultsBefore, "destroyed-twice", "an object was used or destroyed after its destruction");
    Ledger::live().clear();
    Ledger::faults() = 0;
}

void hv_case (hv::Ctx& cx)
{
    if (cx.rng.chance (0.5)) run<float> (cx); else run<double> (cx);
}
