// H08: the same test again: after other tests, with the same objects, with the effect that came
// back, with other remains on the stack, and in another process with another fill of fresh memory.
#include <sys/wait.h>
#include "stock.hpp"

using namespace hp;

struct CheckSpec
{
    int kind = 0;  // 0 equals, 1 peaks at, 2 peaks below, 3 probe
    SigSpec sig;
    double level = 0, tol = 1e-3;
    bool assertion = false, shouldPass = true, perBlock = true;
    size_t failAt = (size_t) -1;
    std::string str() const { return kind == 0 ? "equals " + sig.str() : hv::cat (kind == 1 ? "peaksAt " : kind == 2 ? "peaksBelow " : "probe ", level); }
};

template <typename T> struct Spec
{
    AudioConfig<T> c;
    SigSpec sig;
    FxSpec fx;
    std::vector<CheckSpec> checks;
    std::vector<double> values;
    std::string label, wav;
    int sabotage = 0;  // 1 the effect fails, 2 nothing to process, 3 no signal, 4 unsupported layout
    std::string str() const
    {
        std::string s = c.str() + " " + sig.str() + " through " + fx.str();
        for (auto& k : checks) s += ", " + k.str();
        return s + hv::cat (" sabotage ", sabotage);
    }
};

template <typename T> static Spec<T> genSpec (hv::Rng& r, const std::string& scratch, const std::string& id, bool maySabotage)
{
    Spec<T> s;
    s.c = genConfig<T> (r, 3000, true, 6);
    if (r.chance (0.5)) s.c.rate = 44100, s.c.duration = hv::durationFor (r, s.c.rate, s.c.frames), s.c.frames = (size_t) std::llround (s.c.rate * s.c.duration);
    auto signal = [&] (const std::string& name)
    {
        SigSpec g = genSig (r, s.c.rate, s.c.in, s.c.frames, scratch, 3, true, true);
        if (g.kind == 4)
        {
            const std::string mine = scratch + "/" + name + ".wav";
            std::rename (g.wav.c_str(), mine.c_str());
            g.wav = mine;
        }
        return g;
    };
    s.sig = signal (id + "-in");
    s.fx = genFx (r, (double) s.c.frames / s.c.rate, true, true);
    for (int i = (int) r.range (0, 4); i > 0; --i)
    {
        CheckSpec k;
        k.kind = (int) r.range (0, 3);
        if (k.kind == 0) k.sig = r.chance (0.3) ? s.sig : signal (id + "-ref" + std::to_string (i));
        k.level = r.uni (-40, 10);
        k.tol = std::pow (10.0, r.uni (-6, 1));
        k.assertion = r.chance (0.25);
        k.shouldPass = r.chance (0.75);
        k.perBlock = r.chance (0.6);
        if (r.chance (0.5)) k.failAt = (size_t) r.range (0, (int64_t) s.c.frames - 1);
        s.checks.push_back (k);
    }
    for (int i = (int) r.range (0, 2); i > 0; --i) s.values.push_back (r.uni (-20, 2));
    if (r.chance (0.3)) s.label = "label " + std::to_string (r.range (0, 99));
    if (r.chance (0.2) && s.c.rate < 4e9) s.wav = scratch + "/" + id + "-out.wav";
    if (maySabotage && r.chance (0.5)) s.sabotage = (int) r.range (1, 4);
    return s;
}

template <typename T> static std::unique_ptr<hart::Matcher<T>> makeCheck (const CheckSpec& k)
{
    if (k.kind == 0) return std::unique_ptr<hart::Matcher<T>> (new hart::EqualsTo<T> (*k.sig.make<T>(), k.tol));
    if (k.kind == 1) return std::unique_ptr<hart::Matcher<T>> (new hart::PeaksAt<T> (k.level, k.tol));
    if (k.kind == 2) return std::unique_ptr<hart::Matcher<T>> (new hart::PeaksBelow<T> (k.level, k.tol));
    auto p = std::unique_ptr<ProbeMatcher<T>> (new ProbeMatcher<T>());
    p->perBlock = k.perBlock;
    const size_t at = k.failAt;
    p->bad = [at] (size_t c, size_t f, T) { return c == 0 && f == at; };
    return p;
}

/// what a run is made of; may be used for several runs
template <typename T> struct Objects
{
    std::unique_ptr<hart::Signal<T>> signal;
    std::unique_ptr<hart::DSP<T>> fx;
    std::vector<std::unique_ptr<hart::Matcher<T>>> matchers;
    explicit Objects (const Spec<T>& s): signal (s.sig.template make<T>()), fx (s.fx.template make<T>())
    {
        for (auto& k : s.checks) matchers.push_back (makeCheck<T> (k));
    }
};

struct Seen
{
    uint64_t output = 0, file = 0;
    size_t frames = 0;
    std::string verdict;
    bool operator== (const Seen& o) const { return output == o.output && file == o.file && frames == o.frames && verdict == o.verdict; }
    std::string difference (const Seen& o) const
    {
        if (frames != o.frames) return hv::cat ("frames of output: ", frames, " / ", o.frames);
        if (output != o.output) return "the output differs";
        if (verdict != o.verdict) return "'" + verdict + "' / '" + o.verdict + "'";
        return file != o.file ? "the saved file differs" : "";
    }
    std::string str() const { return hv::cat (output, " ", file, " ", frames, " ", verdict); }
};

template <typename T> static Seen runWith (const Spec<T>& s, Objects<T>& objects, std::unique_ptr<hart::DSP<T>>* back = nullptr, bool giveBack = false)
{
    Seen seen;
    ProbeMatcher<T> tap;
    tap.log->seen.resize (s.c.out);
    if (! s.wav.empty()) ::unlink (s.wav.c_str());
    const auto o = observe ([&]
    {
        auto run = [&] (hart::AudioTestBuilder<T> b)
        {
            b.withSampleRate (s.c.rate).withDuration (s.sabotage == 2 ? 0.0 : s.c.duration).withBlockSize (s.c.block).withLabel (s.label);
            b.withInputChannels (s.c.in);
            b.withOutputChannels (s.sabotage == 4 ? s.c.out + 1 : s.c.out);
            if (s.sabotage != 3) b.withInputSignal (*objects.signal);
            for (double v : s.values) b.withValue (0, v);
            b.expectTrue (tap);
            for (size_t i = 0; i < s.checks.size(); ++i)
            {
                auto& k = s.checks[i];
                auto& m = *objects.matchers[i];
                if (k.assertion) { if (k.shouldPass) b.assertTrue (m); else b.assertFalse (m); }
                else { if (k.shouldPass) b.expectTrue (m); else b.expectFalse (m); }
            }
            if (! s.wav.empty()) b.saveOutputTo (s.wav, hart::Save::always);
            auto d = b.process();
            if (back) *back = std::move (d);
        };
        if (s.sabotage == 1)
        {
            RecordingDSP<T> d;
            d.throwInProcess = true;
            run (hart::processAudioWith (d));
        }
        else if (giveBack) run (hart::processAudioWith (std::move (*back)));
        else run (hart::processAudioWith (*objects.fx));
    });
    seen.output = hashOf (tap.log->seen);
    seen.frames = tap.log->seen.empty() ? 0 : tap.log->seen[0].size();
    seen.verdict = o.errorType + ":" + o.error;
    for (auto& e : o.expects) seen.verdict += "|" + e;
    if (! s.wav.empty() && hv::fileExists (s.wav)) seen.file = hv::hashOf (hv::readFile (s.wav));
    return seen;
}

__attribute__ ((noinline, no_sanitize ("address"))) static void scribble (int byte)
{
    volatile char junk[60000];
    for (size_t i = 0; i < sizeof junk; ++i) junk[i] = (char) byte;
}

template <typename T> static void run (hv::Ctx& cx, const char* childFile)
{
    auto& r = cx.rng;
    const std::string dir = cx.scratch + "/h08";
    ::mkdir (dir.c_str(), 0700);
    const auto d = genDecimals (r);
    setDecimals (d);
    const Spec<T> s = genSpec<T> (r, dir, "main", false);
    cx.describe = s.str();
    auto fresh = [&] { Objects<T> o (s); return runWith (s, o); };
    scribble (0xff);
    const Seen first = fresh();
    if (childFile != nullptr) { hv::writeFile (childFile, first.str()); return; }
    cx.nontrivial (s.str());
    if (cx.index % 300 == 0) cx.sample (s.str());
    cx.saw ("tests");
    if (! s.wav.empty()) cx.saw ("saved files");
    if (first.verdict.size() > 2) cx.saw ("failing tests");
    auto same = [&] (const Seen& again, const char* when)
    {
        cx.saw (when);
        if (! (again == first)) cx.viol (std::string ("differs-") + when, first.difference (again));
    };
    scribble (0x5a);
    same (fresh(), "again");

    // other tests in between, which may use the same objects
    Objects<T> shared (s);
    same (runWith (s, shared), "objects");
    auto others = [&]
    {
        for (int i = (int) r.range (1, 3); i > 0; --i)
        {
            const Spec<T> n = genSpec<T> (r, dir, "other", true);
            Objects<T> o (n);
            cx.saw ("other tests");
            if (r.chance (0.3)) scribble ((int) r.range (0, 255));
            const Seen x = runWith (n, o);
            if (! x.verdict.empty()) cx.saw ("other tests with failures");
        }
        if (r.chance (0.6))
        {
            // the same objects in a different test
            Spec<T> n = s;
            n.c = genConfig<T> (r, 1500, true, 4);
            if (s.sig.kind == 4) n.c.rate = s.c.rate, n.c.duration = (double) n.c.frames / n.c.rate;
            n.wav.clear();
            n.values.push_back (r.uni (-30, 0));
            if (n.c.duration < 1000)
            {
                runWith (n, shared);
                cx.saw ("objects used in other tests");
            }
        }
        if (r.chance (0.3))
        {
            using U = typename std::conditional<std::is_same<T, float>::value, double, float>::type;
            const Spec<U> n = genSpec<U> (r, dir, "other", true);
            Objects<U> o (n);
            runWith (n, o);
        }
        if (r.chance (0.3))
        {
            // the originals used by hand; a run has its own copies
            shared.signal->resetWithDSPChain();
            if (s.sig.kind != 4)
            {
                const double rate = r.chance (0.5) ? s.c.rate : r.pick<double> ({ 8000, 22050, 48000, 96000 });
                const size_t channels = r.chance (0.5) ? s.c.in : (size_t) r.range (1, 6);
                shared.signal->prepareWithDSPChain (rate, channels, 64);
                hart::AudioBuffer<T> b (channels, (size_t) r.range (1, 64));
                shared.signal->renderNextBlockWithDSPChain (b);
                cx.saw ("objects used by hand");
            }
            for (size_t i = 0; i < s.checks.size(); ++i)
            {
                if (s.checks[i].kind == 3 || (s.checks[i].kind == 0 && s.checks[i].sig.kind == 4)) continue;
                const size_t channels = (size_t) r.range (1, 6);
                shared.matchers[i]->prepare (r.pick<double> ({ 8000, 48000 }), channels, 32);
                shared.matchers[i]->reset();
                shared.matchers[i]->match (hart::AudioBuffer<T> (channels, (size_t) r.range (1, 32)));
                cx.saw ("checks used by hand");
            }
            if (r.chance (0.5))
            {
                shared.fx->resetWithEnvelopes();
                shared.fx->prepareWithEnvelopes (r.pick<double> ({ 8000, 48000 }), 2, 2, 32);
                const size_t n = (size_t) r.range (1, 32);
                hart::AudioBuffer<T> a (2, n), b (2, n);
                shared.fx->processWithEnvelopes (a, b);
                cx.saw ("effects used by hand");
            }
        }
    };
    others();
    same (fresh(), "after other tests");
    scribble (0x01);
    same (runWith (s, shared), "objects after other tests");

    std::unique_ptr<hart::DSP<T>> back;
    runWith (s, shared, &back);
    if (back != nullptr)
    {
        if (r.chance (0.5)) others();
        for (int i = (int) r.range (1, 3); i > 0 && back != nullptr; --i) same (runWith (s, shared, &back, true), "on the returned effect");
    }

    if (cx.index % (cx.thorough ? 60 : 30) == 0)
    {
        const std::string file = cx.scratch + "/child.txt";
        ::unlink (file.c_str());
        const pid_t pid = ::fork();
        if (pid == 0)
        {
            ::setenv ("HV_CHILD", file.c_str(), 1);
            const char* opts = std::getenv ("ASAN_OPTIONS");
            ::setenv ("ASAN_OPTIONS", hv::cat (opts ? opts : "", ":max_malloc_fill_size=100000000:malloc_fill_byte=", cx.index % 4 == 0 ? 0x00 : cx.index % 4 == 2 ? 0x3f : 0x7f).c_str(), 1);
            const std::string seed = std::to_string (cx.seed), only = std::to_string (cx.index);
            ::execl ("/proc/self/exe", "h08", "--seed", seed.c_str(), "--only", only.c_str(), "--tier", cx.thorough ? "thorough" : "quick",
                     "--scratch", cx.scratch.c_str(), "--out", "/dev/null", (char*) nullptr);
            ::_exit (97);
        }
        int status = 0;
        ::waitpid (pid, &status, 0);
        if (status != 0) cx.viol ("child-failed", hv::cat ("the same test in another process ended with status ", status));
        else
        {
            const std::string text = hv::readFile (file);
            cx.saw ("other processes");
            if (text != first.str()) cx.viol ("differs-in-another-process", "'" + first.str() + "' / '" + text + "'");
        }
    }
}

void hv_case (hv::Ctx& cx)
{
    const char* child = std::getenv ("HV_CHILD");
    if (cx.rng.chance (0.5)) run<float> (cx, child); else run<double> (cx, child);
}
