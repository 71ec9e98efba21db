// H05: order independence, last-wins and defaults of the builder, judged by what a recording effect
// was prepared with and fed, and by the reports of checks.
#include "stock.hpp"
using namespace hp;

template <typename T> struct Seen
{
    double rate = 0;
    size_t in = 0, out = 0, block = 0, frames = 0;
    std::vector<std::pair<int, double>> values;
    uint64_t audio = 0;
    Outcome outcome;
    std::string wav, svg;
    bool operator== (const Seen& o) const
    {
        return rate == o.rate && in == o.in && out == o.out && block == o.block && frames == o.frames && values == o.values && audio == o.audio
            && outcome.threw == o.outcome.threw && outcome.errorType == o.outcome.errorType && outcome.error == o.outcome.error
            && outcome.expects == o.outcome.expects && wav == o.wav && svg == o.svg;
    }
    std::string str() const
    {
        return hv::cat ("rate ", rate, " in ", in, " out ", out, " block ", block, " frames ", frames, " values ", values.size(), " audio ", audio,
                        " error ", outcome.errorType, " ", outcome.error, " expects ", outcome.expects.size(), outcome.expects.empty() ? "" : " first: " + outcome.expects[0], " wav ", wav.size(), " svg ", svg.size());
    }
};

template <typename T> using Step = std::function<void (hart::AudioTestBuilder<T>&)>;

template <typename T> static Seen<T> runSteps (hv::Ctx& cx, const std::vector<Step<T>>& steps)
{
    Seen<T> s;
    const std::string wav = cx.scratch + "/o.wav", svg = cx.scratch + "/o.svg", wav2 = cx.scratch + "/p.wav", svg2 = cx.scratch + "/p.svg";
    for (auto& f : { wav, svg, wav2, svg2 }) ::unlink (f.c_str());
    auto log = newLog<T>();
    s.outcome = observe ([&] {
        RecordingDSP<T> d (log);
        hart::AudioTestBuilder<T> b (d);
        for (auto& st : steps) st (b);
        b.process();
    });
    const int p = log->last (Event::prepare);
    if (p >= 0)
    {
        auto& e = log->events[(size_t) p];
        s.rate = e.x; s.in = e.a; s.out = e.b; s.block = e.c;
    }
    for (size_t n : log->blocks) s.frames += n;
    for (auto& e : log->events) if (e.kind == Event::setValue) s.values.push_back ({ e.id, e.x });
    s.audio = hashOf (log->in);
    s.wav = hv::readFile (wav) + "|" + hv::readFile (wav2);
    s.svg = hv::readFile (svg) + "|" + hv::readFile (svg2);
    return s;
}

template <typename T> static void order (hv::Ctx& cx)
{
    auto& r = cx.rng;
    struct Item { int group; Step<T> step; };
    using B = hart::AudioTestBuilder<T>;
    const size_t block = hv::genSize (r, 3000), in = hv::genChannels (r, 9), out = r.chance (0.5) ? in : hv::genChannels (r, 9);
    const double rate = r.pick<double> ({ 8000, 22050, 44100, 48000, 96000 });
    const size_t frames = (size_t) r.range (1, 3000);
    const uint64_t salt = (uint64_t) r.range (0, 5000), salt2 = salt + 1 + (uint64_t) r.range (0, 100);
    // each group is one setting given one to three times; the order within a group is kept
    std::vector<std::vector<Step<T>>> groups;
    std::vector<size_t> lists;  // groups in which every step counts
    auto rep = [&] (Step<T> last, std::initializer_list<Step<T>> others)
    {
        std::vector<Step<T>> g;
        const int n = r.chance (0.5) ? 0 : (int) r.range (1, 2);
        for (int i = 0; i < n; ++i) g.push_back (r.pick (std::vector<Step<T>> (others)));
        g.push_back (last);
        groups.push_back (g);
        return n;
    };
    int repeats = 0;
    if (r.chance (0.8)) repeats += rep ([=] (B& b) { b.withSampleRate (rate); }, { [] (B& b) { b.withSampleRate (11025); }, [] (B& b) { b.withSampleRate (192000); } });
    const double usedRate = groups.empty() ? 44100 : rate;
    if (r.chance (0.8)) repeats += rep ([=] (B& b) { b.withBlockSize (block); }, { [] (B& b) { b.withBlockSize (1); }, [] (B& b) { b.withBlockSize (5000); } });
    repeats += rep ([=] (B& b) { b.withDuration ((double) frames / usedRate); }, { [] (B& b) { b.withDuration (0); }, [] (B& b) { b.withDuration (3.0); } });
    auto inStep = [in] (B& b) { b.withInputChannels (in); };
    auto outStep = [out] (B& b) { b.withOutputChannels (out); };
    repeats += rep (inStep, { [] (B& b) { b.withStereoInput(); }, [] (B& b) { b.withMonoInput(); }, [] (B& b) { b.withInputChannels (7); } });
    repeats += rep (outStep, { [] (B& b) { b.withStereoOutput(); }, [] (B& b) { b.withMonoOutput(); }, [] (B& b) { b.withOutputChannels (5); } });
    repeats += rep ([=] (B& b) { b.withInputSignal (IndexSignal<T> (newLog<T>(), salt)); }, { [=] (B& b) { b.withInputSignal (IndexSignal<T> (newLog<T>(), salt2)); }, [] (B& b) { b.withInputSignal (hart::Silence<T>()); } });
    const int labelled = (int) r.range (0, 2);  // 0 not, 1 with a label, 2 with an empty one after others
    if (labelled == 1) repeats += rep ([] (B& b) { b.withLabel ("the label"); }, { [] (B& b) { b.withLabel ("another"); }, [] (B& b) { b.withLabel (""); } });
    if (labelled == 2) repeats += rep ([] (B& b) { b.withLabel (""); }, { [] (B& b) { b.withLabel ("another"); } });
    // checks: their mutual order is kept, so that reports come in the same order
    {
        std::vector<Step<T>> g;
        const int n = (int) r.range (0, 3);
        for (int i = 0; i < n; ++i)
        {
            ProbeMatcher<T> m;
            m.name = hv::cat ("Check", i);
            m.perBlock = r.chance (0.5);
            const size_t at = (size_t) r.range (0, (int64_t) frames);
            m.bad = [=] (size_t, size_t f, T) { return f == at; };
            const bool expectTrue = r.chance (0.6);
            g.push_back ([=] (B& b) { if (expectTrue) b.expectTrue (m); else b.expectFalse (m); });
        }
        if (! g.empty()) { lists.push_back (groups.size()); groups.push_back (g); }
    }
    std::vector<std::pair<int, double>> values;
    {
        std::vector<Step<T>> g;
        values = genValues (r);
        for (const auto& v : values) g.push_back ([=] (B& b) { b.withValue (v.first, v.second); });
        if (! g.empty()) { lists.push_back (groups.size()); groups.push_back (g); }
    }
    const std::string wav = cx.scratch + "/o.wav", svg = cx.scratch + "/o.svg", wav2 = cx.scratch + "/p.wav", svg2 = cx.scratch + "/p.svg";
    if (r.chance (0.4))
    {
        const bool plainFormat = r.chance (0.3);
        const auto fmt = plainFormat ? hart::WavFormat::pcm24 : r.pick<hart::WavFormat> ({ hart::WavFormat::pcm16, hart::WavFormat::pcm24, hart::WavFormat::pcm32, hart::WavFormat::float32 });
        const auto mode = r.pick<hart::Save> ({ hart::Save::always, hart::Save::whenFails, hart::Save::never });
        repeats += rep ([=] (B& b) { if (plainFormat) b.saveOutputTo (wav, mode); else b.saveOutputTo (wav, mode, fmt); }, { [=] (B& b) { b.saveOutputTo (wav2, hart::Save::always); }, [=] (B& b) { b.saveOutputTo (wav, hart::Save::never); }, [=] (B& b) { b.saveOutputTo (wav2, hart::Save::whenFails, hart::WavFormat::pcm16); }, [=] (B& b) { b.saveOutputTo (wav, hart::Save::always, hart::WavFormat::float32); } });
    }
    if (frames < 600 && r.chance (0.2))
    {
        const auto mode = r.pick<hart::Save> ({ hart::Save::always, hart::Save::whenFails, hart::Save::never });
        repeats += rep ([=] (B& b) { b.savePlotTo (svg, mode); }, { [=] (B& b) { b.savePlotTo (svg2, hart::Save::always); }, [=] (B& b) { b.savePlotTo (svg, hart::Save::never); } });
    }
    cx.describe = hv::cat ("order: ", groups.size(), " settings, ", repeats, " repeated, rate ", usedRate, " frames ", frames, " block ", block, " in ", in, " out ", out);
    cx.nontrivial (cx.describe);
    std::vector<Step<T>> plain;
    for (auto& g : groups)
    {
        // groups of a repeated setting end with the effective one; lists have to be given completely
        for (auto& s : g) plain.push_back (s);
    }
    const auto want = runSteps<T> (cx, plain);
    if (repeats > 0)
    {
        std::vector<Step<T>> single;
        for (size_t g = 0; g < groups.size(); ++g)
        {
            if (std::find (lists.begin(), lists.end(), g) != lists.end()) for (auto& s : groups[g]) single.push_back (s);
            else single.push_back (groups[g].back());
        }
        const auto got = runSteps<T> (cx, single);
        cx.need (got == want, "replaced-setting-matters", "with settings that were replaced: " + want.str() + "; without them: " + got.str());
        cx.saw ("runs without replaced settings");
    }
    for (int k = 0; k < 3; ++k)
    {
        // a random interleaving that keeps the order within each group
        std::vector<size_t> at (groups.size(), 0);
        std::vector<size_t> order;
        for (size_t g = 0; g < groups.size(); ++g) for (size_t i = 0; i < groups[g].size(); ++i) order.push_back (g);
        r.shuffle (order);
        std::vector<Step<T>> mixed;
        for (size_t g : order) mixed.push_back (groups[g][at[g]++]);
        const auto got = runSteps<T> (cx, mixed);
        cx.need (got == want, "order-matters", "settings in another order gave: " + got.str() + "; want: " + want.str());
        cx.saw ("interleavings");
    }
    // and the effective values are what was given last
    cx.need (want.rate == usedRate && want.in == in && want.out == out, "last-wins", "effective: " + want.str());
    cx.need (want.frames == (size_t) std::llround (usedRate * ((double) frames / usedRate)), "last-wins-duration", "effective: " + want.str());
    cx.need (want.values == values, "values-in-order", hv::cat ("the effect was given ", want.values.size(), " values, not the ", values.size(), " that were set in their order"));
    cx.saw ("values", values.size());
    if (labelled == 2)
        for (auto& e : want.outcome.expects) cx.need (e.find ("another") == std::string::npos, "last-wins-label", "a replaced label is in the report: " + e);
    if (labelled == 1)
        for (auto& e : want.outcome.expects) cx.need (e.find ("the label") != std::string::npos && e.find ("another") == std::string::npos, "last-wins-label", "the label given last is not in the report: " + e);
    if (labelled) cx.saw ("labelled reports", want.outcome.expects.size());
    Planes<T> model (in, std::vector<T> (want.frames));
    for (size_t c = 0; c < in; ++c) for (size_t f = 0; f < want.frames; ++f) model[c][f] = indexValue<T> (c, f, in, salt);
    cx.need (hashOf (model) == want.audio, "last-wins-signal", "the input signal given last was not the one used");
    cx.saw ("repeated settings", (uint64_t) repeats);
    if (cx.index < 4) cx.sample (cx.describe);
}

template <typename T> static void lastWins (hv::Ctx& cx)
{
    // saves: the last request alone counts
    auto& r = cx.rng;
    const std::string a = cx.scratch + "/a", b2 = cx.scratch + "/b";
    auto clean = [&] { for (auto x : { a + ".wav", b2 + ".wav", a + ".svg", b2 + ".svg" }) ::unlink (x.c_str()); };
    clean();
    const bool plot = r.chance (0.3);
    const std::string ext = plot ? ".svg" : ".wav";
    const auto m1 = r.pick<hart::Save> ({ hart::Save::always, hart::Save::whenFails, hart::Save::never });
    const auto m2 = r.pick<hart::Save> ({ hart::Save::always, hart::Save::whenFails, hart::Save::never });
    const bool samePath = r.chance (0.3), fails = r.chance (0.5);
    cx.describe = hv::cat ("saving ", ext, " modes ", (int) m1, " then ", (int) m2, " same path ", samePath, " fails ", fails);
    cx.nontrivial (cx.describe + hv::typeTag<T>());
    observe ([&] {
        auto t = hart::processAudioWith (hart::GainLinear<T> (1));
        t.withInputSignal (hart::SineWave<T> (1000)).withDuration (0.002);
        if (plot) t.savePlotTo (a + ext, m1).savePlotTo (samePath ? a + ext : b2 + ext, m2);
        else t.saveOutputTo (a + ext, m1).saveOutputTo (samePath ? a + ext : b2 + ext, m2);
        if (fails) t.expectTrue (hart::EqualsTo<T> (hart::Silence<T>()));
        t.process();
    });
    const bool want = m2 == hart::Save::always || (m2 == hart::Save::whenFails && fails);
    cx.need (hv::fileExists (samePath ? a + ext : b2 + ext) == want, "last-save", want ? "the save requested last did not happen" : "a save happened that the last request does not ask for");
    if (! samePath) cx.need (! hv::fileExists (a + ext), "replaced-save", "a replaced save request was carried out");
    clean();
    cx.saw ("repeated saves");
}

template <typename T> static void defaults (hv::Ctx& cx)
{
    auto& r = cx.rng;
    using B = hart::AudioTestBuilder<T>;
    double rate = 44100, dur = 0.1;
    size_t block = 1024, in = 1, out = 1;
    std::vector<Step<T>> steps { [] (B& b) { b.withInputSignal (IndexSignal<T>()); } };
    std::string what;
    auto set = [&] (double p, const char* n, Step<T> s) { if (! r.chance (p)) return false; steps.push_back (s); what += std::string (" ") + n; return true; };
    if (set (0.4, "rate", [] (B& b) { b.withSampleRate (32000); })) rate = 32000;
    if (set (0.4, "block", [] (B& b) { b.withBlockSize (333); })) block = 333;
    if (set (0.4, "duration", [] (B& b) { b.withDuration (0.02); })) dur = 0.02;
    const int n = (int) r.range (0, 3);
    for (int i = 0; i < n; ++i)
        switch (r.range (0, 7))
        {
            case 0: set (1, "stereo in", [] (B& b) { b.withStereoInput(); }); in = 2; break;
            case 1: set (1, "stereo out", [] (B& b) { b.withStereoOutput(); }); out = 2; break;
            case 2: set (1, "mono in", [] (B& b) { b.withMonoInput(); }); in = 1; break;
            case 3: set (1, "mono out", [] (B& b) { b.withMonoOutput(); }); out = 1; break;
            case 4: set (1, "in stereo", [] (B& b) { b.inStereo(); }); in = out = 2; break;
            case 5: set (1, "in mono", [] (B& b) { b.inMono(); }); in = out = 1; break;
            case 6: set (1, "3 in", [] (B& b) { b.withInputChannels (3); }); in = 3; break;
            case 7: set (1, "4 out", [] (B& b) { b.withOutputChannels (4); }); out = 4; break;
        }
    cx.describe = "defaults but for:" + what + " " + hv::typeTag<T>();
    cx.nontrivial (cx.describe);
    const auto s = runSteps<T> (cx, steps);
    cx.need (! s.outcome.threw, "default-error", s.outcome.error);
    cx.need (s.rate == rate, "default-rate", s.str());
    cx.need (s.block == block, "default-block", s.str());
    cx.need (s.in == in && s.out == out, "channels", hv::cat (s.str(), "; want ", in, " in, ", out, " out"));
    cx.need (s.frames == (size_t) std::llround (rate * dur), "default-duration", s.str());
    cx.need (s.wav == "|" && s.svg == "|", "default-save", "files were written without a request");
    cx.saw ("defaults");
}

template <typename T> static void one (hv::Ctx& cx)
{
    const auto k = cx.rng.range (0, 9);
    if (k < 6) order<T> (cx); else if (k < 8) defaults<T> (cx); else lastWins<T> (cx);
}

void hv_case (hv::Ctx& cx)
{
    if (cx.index % 2) one<float> (cx); else one<double> (cx);
}
