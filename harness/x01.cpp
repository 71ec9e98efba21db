// X01: random programs over the public API with hostile values, and the repository's own tests, under
// sanitizers and memcheck. The oracle is the instrumentation; only std::exceptions may leave a call.
#include <filesystem>
#include "runner.hpp"

using namespace hp;
namespace fs = std::filesystem;

static double anyValue (hv::Rng& r)
{
    if (r.chance (0.3)) return r.pick<double> ({ 0.0, -0.0, 1.0, -1.0, std::nan (""), hart::inf, -hart::inf, 1e300, -1e300, 1e-300, 5e-324, 1e38, -1e39, 120, -120, -120.0001, 1e-6, 2147483648.0, -2147483649.0, 1e19, 0.5, -0.5 });
    return r.chance (0.5) ? r.uni (-60, 12) : r.uni (-2, 2);
}

static double anyRate (hv::Rng& r) { return r.chance (0.1) ? r.pick<double> ({ 1e-6, 0.1, 1, 1e7, 3.14, 4294967296.0, 1e12 }) : hv::genRate (r); }
static double anyTime (hv::Rng& r) { return r.chance (0.3) ? r.pick<double> ({ 0.0, 1e-9, 1e-300, 5e-324, 1e5, 1e15, 1e300 }) : r.uni (0, 0.05); }

template <typename T> struct World
{
    hv::Ctx& cx;
    hv::Rng& r;
    struct Sig { std::unique_ptr<hart::Signal<T>> s; size_t channels = 0, block = 0; };
    struct Fx { std::unique_ptr<hart::DSP<T>> d; size_t in = 0, out = 0, block = 0; };
    struct Mat { std::unique_ptr<hart::Matcher<T>> m; size_t channels = 0, block = 0; bool failed = false; };
    struct Env { std::unique_ptr<hart::Envelope> e; size_t block = 0; };
    std::vector<Sig> sigs;
    std::vector<Fx> fxs;
    std::vector<Mat> mats;
    std::vector<Env> envs;
    std::vector<hart::AudioBuffer<T>> bufs;
    std::string trace;

    World (hv::Ctx& c): cx (c), r (c.rng) {}

    template <typename V> typename V::value_type* any (V& v) { return v.empty() ? nullptr : &v[(size_t) r.range (0, (int64_t) v.size() - 1)]; }
    template <typename V, typename E> void keep (V& v, E&& e)
    {
        if (v.size() < 6) v.push_back (std::forward<E> (e));
        else *any (v) = std::forward<E> (e);
    }

    size_t layout() { return r.chance (0.97) ? (size_t) r.range (1, 4) : hv::genChannels (r); }
    size_t blockSize() { return r.chance (0.95) ? (size_t) r.range (1, 70) : hv::genSize (r, 2000); }

    hart::AudioBuffer<T> audio (size_t channels, size_t frames)
    {
        hart::AudioBuffer<T> b (channels, frames);
        const bool hostile = r.chance (0.3);
        for (size_t c = 0; c < channels; ++c)
            for (size_t f = 0; f < frames; ++f) b[c][f] = hostile && r.chance (0.1) ? (T) clampT (anyValue (r)) : (T) r.uni (-1.2, 1.2);
        return b;
    }
    // converting 1e300 to float is not defined; users of float give floats
    static double clampT (double v)
    {
        if (sizeof (T) == 4 && std::isfinite (v)) return std::max (-3e38, std::min (3e38, v));
        return v;
    }

    std::string wav (size_t channels)
    {
        static int n = 0;
        const std::string p = cx.scratch + "/x01-" + std::to_string (n++ % 4) + ".wav";
        const size_t frames = r.chance (0.15) ? 0 : (size_t) r.range (1, 100);
        const auto o = observe ([&] { hart::WavWriter<T>::writeBuffer (audio (channels, frames), p, r.pick<double> ({ 8000, 44100, 48000, 96000 }), r.pick ({ hart::WavFormat::pcm16, hart::WavFormat::pcm24, hart::WavFormat::pcm32, hart::WavFormat::float32 })); });
        if (o.threw) hv::writeFile (p, "RIFF");
        return p;
    }

    std::unique_ptr<hart::Signal<T>> newSignal()
    {
        using P = std::unique_ptr<hart::Signal<T>>;
        switch (r.range (0, 4))
        {
            case 0: return P (new hart::SineWave<T> (r.chance (0.8) ? r.uni (0, 30000) + 1e-9 : anyValue (r), anyValue (r)));
            case 1: return P (new hart::Silence<T>());
            case 2: return P (new hart::WhiteNoise<T> ((uint_fast32_t) (r.u64() >> r.range (0, 63))));
            case 3: return P (new hart::SineSweep<T> (r.chance (0.8) ? anyTime (r) : std::min (anyValue (r), 1e9), r.chance (0.8) ? r.uni (1, 20000) : anyValue (r), r.chance (0.8) ? r.uni (1, 20000) : anyValue (r), r.chance (0.5) ? hart::SineSweep<T>::SweepType::log : hart::SineSweep<T>::SweepType::linear, r.chance (0.5) ? hart::SineSweep<T>::Loop::yes : hart::SineSweep<T>::Loop::no, anyValue (r)));
            default: return P (new hart::WavFile<T> (r.chance (0.9) ? wav (layout()) : "missing.wav", r.chance (0.5) ? hart::WavFile<T>::Loop::yes : hart::WavFile<T>::Loop::no));
        }
    }
    hart::SegmentedEnvelope newEnvelope()
    {
        hart::SegmentedEnvelope e (anyValue (r));
        for (int i = (int) r.range (0, 6); i > 0; --i)
        {
            const double d = r.chance (0.9) ? anyTime (r) : anyValue (r);
            if (r.chance (0.3)) e.hold (d);
            else e.rampTo (anyValue (r), d, r.pick ({ hart::SegmentedEnvelope::Shape::linear, hart::SegmentedEnvelope::Shape::exponential, hart::SegmentedEnvelope::Shape::sCurve }));
        }
        return e;
    }
    std::unique_ptr<hart::DSP<T>> newEffect()
    {
        using P = std::unique_ptr<hart::DSP<T>>;
        P d;
        switch (r.range (0, 2))
        {
            case 0: d.reset (new hart::GainDb<T> (anyValue (r))); break;
            case 1: d.reset (new hart::GainLinear<T> (anyValue (r))); break;
            default: d.reset (new hart::HardClip<T> (anyValue (r)));
        }
        if (r.chance (0.4)) observe ([&] { d->withEnvelope (r.chance (0.9) ? 0 : (int) r.range (-3, 3), newEnvelope()); });
        return d;
    }
    std::unique_ptr<hart::Matcher<T>> newMatcher()
    {
        using P = std::unique_ptr<hart::Matcher<T>>;
        switch (r.range (0, 2))
        {
            case 0: return P (new hart::PeaksAt<T> (anyValue (r), r.chance (0.7) ? 1e-3 : anyValue (r)));
            case 1: return P (new hart::PeaksBelow<T> (anyValue (r), r.chance (0.7) ? 1e-3 : anyValue (r)));
            default:
            {
                const double tol = r.chance (0.7) ? 1e-3 : anyValue (r);
                switch (r.range (0, 2))
                {
                    case 0: { hart::SineWave<T> s (r.uni (1, 20000)); if (r.chance (0.5)) s.followedBy (newEffect()); return P (new hart::EqualsTo<T> (s, tol)); }
                    case 1: { hart::Silence<T> s; return P (new hart::EqualsTo<T> (s, tol)); }
                    default: { hart::WavFile<T> s (wav (layout())); return P (new hart::EqualsTo<T> (s, tol)); }
                }
            }
        }
    }

    void represent (const std::function<void (std::ostream&)>& f)
    {
        std::ostringstream s;
        if (r.chance (0.3)) s << std::hex << std::scientific << std::setprecision ((int) r.range (0, 40));
        f (s);
    }

    void signalOp()
    {
        Sig* s = any (sigs);
        switch (s == nullptr ? 0 : r.range (0, 9))
        {
            case 0: { Sig n; n.s = newSignal(); keep (sigs, std::move (n)); break; }
            case 1: { Sig n; n.s = s->s->copy(); keep (sigs, std::move (n)); break; }
            case 2: { Sig n; n.s = s->s->move(); *s = std::move (n); break; }
            case 3: if (r.chance (0.6)) s->s->followedBy (newEffect()); else { hart::GainDb<T> g (anyValue (r)); if (r.chance (0.5)) s->s->followedBy (g); else s->s->followedBy (std::move (g)); }
                    s->channels = 0; break;
            case 4: case 5:
            {
                const size_t ch = layout(), bl = blockSize();
                const double rate = anyRate (r);
                if (! s->s->supportsNumChannels (ch) || ! s->s->supportsSampleRate (rate)) { cx.saw ("not supported"); break; }
                s->channels = 0;
                s->s->prepareWithDSPChain (rate, ch, bl);
                s->s->resetWithDSPChain();
                s->channels = ch; s->block = bl;
                break;
            }
            case 6: case 7: case 8:
                if (s->channels == 0) break;
                for (int i = (int) r.range (1, 5); i > 0; --i)
                {
                    hart::AudioBuffer<T> b (s->channels, r.chance (0.7) ? s->block : (size_t) r.range (1, (int64_t) s->block));
                    s->s->renderNextBlockWithDSPChain (b);
                    cx.saw ("blocks rendered");
                    if (r.chance (0.2)) s->s->resetWithDSPChain();
                    if (r.chance (0.2)) keep (bufs, std::move (b));
                }
                break;
            case 9: represent ([&] (std::ostream& o) { o << *s->s; }); if (r.chance (0.3)) sigs.erase (sigs.begin() + (s - &sigs[0])); break;
        }
    }

    void effectOp()
    {
        Fx* f = any (fxs);
        switch (f == nullptr ? 0 : r.range (0, 8))
        {
            case 0: { Fx n; n.d = newEffect(); keep (fxs, std::move (n)); break; }
            case 1: { Fx n; n.d = f->d->copy(); keep (fxs, std::move (n)); break; }
            case 2: { Fx n; n.d = f->d->move(); *f = std::move (n); break; }
            case 3: f->in = 0; if (r.chance (0.5)) f->d->withEnvelope ((int) r.range (-1, 1), newEnvelope()); else { const auto e = newEnvelope(); f->d->withEnvelope (0, e); } break;
            case 4: f->d->setValue (r.chance (0.8) ? 0 : (int) r.range (-5, 5), anyValue (r)); break;
            case 5: { volatile double v = f->d->getValue (r.chance (0.8) ? 0 : (int) r.range (-5, 5)); (void) v; represent ([&] (std::ostream& o) { o << *f->d; }); break; }
            case 6: case 7:
            {
                const size_t in = layout(), out = r.chance (0.6) ? in : layout(), bl = blockSize();
                const double rate = anyRate (r);
                if (! f->d->supportsChannelLayout (in, out) || ! f->d->supportsSampleRate (rate)) { cx.saw ("not supported"); break; }
                f->d->prepareWithEnvelopes (rate, in, out, bl);
                f->d->resetWithEnvelopes();
                for (int i = (int) r.range (1, 5); i > 0; --i)
                {
                    const size_t n = r.chance (0.7) ? bl : (size_t) r.range (1, (int64_t) bl);
                    auto a = audio (in, n);
                    if (in == out && r.chance (0.3)) f->d->processWithEnvelopes (a, a);
                    else { hart::AudioBuffer<T> b (out, n); f->d->processWithEnvelopes (a, b); }
                    cx.saw ("blocks processed");
                    if (r.chance (0.2)) f->d->resetWithEnvelopes();
                }
                break;
            }
            case 8: if (r.chance (0.5) && ! sigs.empty()) { any (sigs)->channels = 0; any (sigs)->s->followedBy (*f->d); for (auto& s : sigs) s.channels = 0; } else fxs.erase (fxs.begin() + (f - &fxs[0])); break;
        }
    }

    void matcherOp()
    {
        Mat* m = any (mats);
        switch (m == nullptr ? 0 : r.range (0, 6))
        {
            case 0: { Mat n; n.m = newMatcher(); keep (mats, std::move (n)); break; }
            case 1: { Mat n; n.m = m->m->copy(); keep (mats, std::move (n)); break; }
            case 2: { Mat n; n.m = m->m->move(); *m = std::move (n); break; }
            case 3: case 4: case 5:
            {
                const size_t ch = layout(), bl = blockSize();
                m->channels = 0;
                m->m->prepare (r.pick<double> ({ 44100, 48000, 8000 }), ch, bl);
                m->m->reset();
                for (int i = (int) r.range (1, 4); i > 0; --i)
                {
                    auto a = audio (ch, r.chance (0.7) ? bl : (size_t) r.range (1, (int64_t) bl));
                    if (! m->m->match (a)) { const auto d = m->m->getFailureDetails(); cx.saw ("failure details"); if (d.channel >= ch || d.frame >= a.getNumFrames()) cx.viol ("details-out-of-range", "failure details point outside of the judged audio"); }
                    cx.saw ("blocks judged");
                    if (r.chance (0.2)) m->m->reset();
                }
                break;
            }
            case 6: represent ([&] (std::ostream& o) { o << *m->m; }); volatile bool b = m->m->canOperatePerBlock(); (void) b; if (r.chance (0.3)) mats.erase (mats.begin() + (m - &mats[0])); break;
        }
    }

    void envelopeOp()
    {
        Env* e = any (envs);
        switch (e == nullptr ? 0 : r.range (0, 6))
        {
            case 0: { Env n; n.e = hart::make_unique<hart::SegmentedEnvelope> (newEnvelope()); if (r.chance (0.5)) { n.block = blockSize(); n.e->prepare (44100, n.block); } keep (envs, std::move (n)); break; }
            case 1: { Env n; n.e = e->e->copy(); keep (envs, std::move (n)); break; }
            case 2: e->block = blockSize(); e->e->prepare (r.chance (0.9) ? anyRate (r) : anyValue (r), e->block); break;
            case 3: e->e->reset(); break;
            default: if (e->block) { std::vector<double> v (r.chance (0.8) ? e->block : (size_t) r.range (0, 10)); e->e->renderNextBlock (r.chance (0.7) ? e->block : (size_t) r.range (1, (int64_t) e->block), v); cx.saw ("envelope blocks"); }
        }
    }

    void bufferOp()
    {
        auto* b = any (bufs);
        switch (b == nullptr ? 0 : r.range (0, 7))
        {
            case 0: keep (bufs, audio (r.chance (0.9) ? layout() : 0, r.chance (0.9) ? blockSize() : 0)); break;
            case 1: { auto c = *b; keep (bufs, std::move (c)); break; }
            case 2: { auto* o = any (bufs); auto c = *o; *b = std::move (c); break; }
            case 3: { auto* o = any (bufs); *b = *o; break; }
            case 4: if (b->getNumFrames() < 5000) b->appendFrom (*any (bufs)); break;
            case 5: b->clear(); break;
            case 6: { const size_t big = r.chance (0.2) ? ~(size_t) 0 - (size_t) r.range (0, 100) : (size_t) r.range (0, 100);
                      volatile T m = r.chance (0.5) ? b->getMagnitude (big, (size_t) r.range (0, 100)) : b->getMagnitude ((size_t) r.range (0, 5), (size_t) r.range (0, 20), big); (void) m; break; }
            case 7: if (b->getNumChannels() > 0 && b->getNumChannels() < 1000) hart::WavWriter<T>::writeBuffer (*b, cx.scratch + "/x01-out.wav", r.pick<double> ({ 8000, 44100, 47952.05, 1, 4294967295.0, 4294967296.0, 1e300, -1.0, std::nan ("") }), r.pick ({ hart::WavFormat::pcm16, hart::WavFormat::pcm24, hart::WavFormat::pcm32, hart::WavFormat::float32 })); break;
        }
    }

    void utilityOp()
    {
        const T a = (T) clampT (anyValue (r)), b = (T) clampT (anyValue (r));
        volatile T x = hart::decibelsToRatio (a); x = hart::ratioToDecibels (a); x = hart::wrapPhase (a); x = hart::clamp (a, std::min (b, (T) 1), std::max (b, (T) 1)); (void) x;
        volatile bool y = hart::floatsEqual (a, b) || hart::floatsNotEqual (a, b); (void) y;
        volatile size_t n = hart::roundToSizeT (a); (void) n;
    }

    void run()
    {
        std::unique_ptr<hart::DSP<T>> tested;
        if (! fxs.empty() && r.chance (0.3)) { tested = any (fxs)->d->copy(); }
        else tested = newEffect();
        for (int again = r.chance (0.2) ? 2 : 1; again > 0; --again)
        {
            auto b = hart::processAudioWith (std::move (tested));
            // lengths that no machine can hold are not asked for
            double rate = 44100;
            if (r.chance (0.9)) b.withSampleRate (rate = anyRate (r));
            if (r.chance (0.05)) b.withSampleRate (r.pick<double> ({ 0.0, -1.0, std::nan (""), hart::inf, -hart::inf, -1e-300 }));
            if (r.chance (0.8)) b.withBlockSize (r.chance (0.98) ? blockSize() : 0);
            b.withDuration ((double) r.range (0, 400) / rate);
            if (r.chance (0.05)) b.withDuration (r.pick<double> ({ 0.0, -0.0, 5e-324, 1e-300, -1.0, std::nan (""), hart::inf, -hart::inf, -5e-324, 1e300 }));
            const size_t in = layout(), out = r.chance (0.7) ? in : layout();
            if (r.chance (0.7)) b.withInputChannels (r.chance (0.98) ? in : 0);
            if (r.chance (0.7)) b.withOutputChannels (r.chance (0.98) ? out : ~(size_t) 0);
            if (r.chance (0.97)) { if (! sigs.empty() && r.chance (0.5)) b.withInputSignal (*any (sigs)->s); else { hart::SineWave<T> s (100); if (r.chance (0.3)) s.followedBy (newEffect()); b.withInputSignal (s); } }
            for (int i = (int) r.range (0, 2); i > 0; --i) b.withValue (r.chance (0.95) ? 0 : (int) r.range (-2, 2), anyValue (r));
            for (int i = (int) r.range (0, 3); i > 0; --i)
            {
                std::unique_ptr<hart::Matcher<T>> m = ! mats.empty() && r.chance (0.5) ? any (mats)->m->copy() : newMatcher();
                switch (r.range (0, 3)) { case 0: b.expectTrue (*m); break; case 1: b.expectFalse (*m); break; case 2: b.assertTrue (*m); break; default: b.assertFalse (*m); }
            }
            if (r.chance (0.4)) b.withLabel (r.pick<std::string> ({ "", "label", "100% \xff\xfe %s%n", std::string (3000, 'x'), std::string ("a\0b", 3) }));
            const auto mode = r.pick ({ hart::Save::always, hart::Save::whenFails, hart::Save::never });
            if (r.chance (0.1)) b.saveOutputTo (cx.scratch + (r.chance (0.9) ? "/x01-run.wav" : "/no/where.wav"), mode, r.pick ({ hart::WavFormat::pcm16, hart::WavFormat::pcm24, hart::WavFormat::pcm32, hart::WavFormat::float32 }));
            if (r.chance (0.04) && rate > 500 && rate < 1e6) b.savePlotTo (cx.scratch + (r.chance (0.9) ? "/x01-run.svg" : "/no/where.svg"), mode);
            tested = b.process();
            cx.saw ("runs completed");
            if (tested == nullptr) { cx.viol ("no-effect-returned", "process() returned no effect"); return; }
            if (r.chance (0.4)) { Fx f; f.d = tested->copy(); keep (fxs, std::move (f)); }
        }
    }

    void program (int length)
    {
        for (int i = 0; i < length; ++i)
        {
            const int op = (int) r.range (0, 15);
            const auto o = observe ([&]
            {
                if (op < 3) signalOp();
                else if (op < 6) effectOp();
                else if (op < 8) matcherOp();
                else if (op < 10) envelopeOp();
                else if (op < 12) bufferOp();
                else if (op < 13) utilityOp();
                else run();
            });
            cx.saw ("operations");
            if (o.threw) cx.saw (o.errorType.empty() ? "other refusals" : "refused: " + o.errorType);
        }
    }
};

/// the repository's own tests, in every order and mode, with the instrumentation watching
static void suite (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const char* repo = std::getenv ("HART_REPO");
    const std::string data = std::string (repo ? repo : "/repo") + "/tests/data", root = cx.scratch + "/suite";
    fs::remove_all (root);
    if (fs::exists (data)) fs::copy (data, root, fs::copy_options::recursive);
    else fs::create_directories (root);
    std::vector<std::string> args { "--data-root-path", root, "--seed", std::to_string (r.range (0, 1 << 30)) };
    if (r.chance (0.5)) args.push_back ("--shuffle");
    const bool generators = r.chance (0.2);
    if (generators) args.push_back ("--run-generators");
    cx.describe = hv::cat ("the repository's own ", generators ? "generators" : "tests");
    cx.nontrivial (hv::cat (cx.describe, cx.index));
    const ChildRun c = runChild (cx.scratch, {}, args);
    cx.saw ("test suites");
    cx.saw ("tests of the suite", c.verdicts.size());
    if (! c.exited || c.status > 1)
    {
        std::string key = "crash";
        const auto at = c.err.find ("ERROR: AddressSanitizer: "), ub = c.err.find ("runtime error: ");
        if (at != std::string::npos) key = c.err.substr (at + 25, c.err.find (' ', at + 25) - at - 25);
        else if (ub != std::string::npos) key = "ub: " + hv::stripNumbers (c.err.substr (ub + 15, 60));
        cx.viol ("suite:" + key, hv::cat ("status ", c.status, ": ", c.err.substr (0, 2500)));
    }
    fs::remove_all (root);
}

void hv_case (hv::Ctx& cx)
{
    auto& r = cx.rng;
#ifdef X01_SUITE
    if (cx.index < 16) { suite (cx); return; }
#endif
    const bool dbl = r.chance (0.5);
    const int length = (int) r.range (5, 40);
    cx.describe = hv::cat (dbl ? "double" : "float", ", a program of ", length, " operations");
    cx.nontrivial (hv::cat (cx.describe, cx.index));
    if (cx.index % 500 == 20) cx.sample (cx.describe);
    hv::CaptureCout quiet;
    if (dbl) { World<double> w (cx); w.program (length); }
    else { World<float> w (cx); w.program (length); }
}
