// H06: what a run leaves on disk, against what was asked for.
#include <filesystem>
#include "stock.hpp"
#include "riff.hpp"
#include "svg.hpp"

using namespace hp;
namespace fs = std::filesystem;

using Tree = std::map<std::string, uint64_t>;

static Tree snapshot (const std::string& dir)
{
    Tree t;
    for (auto& e : fs::recursive_directory_iterator (dir, fs::directory_options::skip_permission_denied))
    {
        const std::string p = e.path().lexically_normal().string();
        t[p] = e.is_directory() ? 1 : hv::hashOf (hv::readFile (p)) | 2;
    }
    return t;
}

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const std::string base = cx.scratch + "/h06";
    fs::remove_all (base);
    const bool plotToo = r.chance (0.5);
    auto c = genConfig<T> (r, plotToo ? 4000 : 20000, false, plotToo ? 6 : 128);
    if (plotToo && (double) c.frames / c.rate > 50) { c.rate = 8000; c.duration = hv::durationFor (r, c.rate, c.frames); c.frames = (size_t) std::llround (c.rate * c.duration); }
    if (c.rate > 4e9) return;

    // places
    const std::string rootName = r.pick ({ "root", "data root", "r\xc3\xb6\xc3\xb6t", "a/b/c", "dots.in.name" });
    fs::create_directories (base + "/" + rootName + "/sub");
    fs::create_directories (base + "/elsewhere/deep er");
    fs::create_directories (base + "/" + rootName + "/../outside");
    std::string root = r.chance (0.5) ? base + "/" + rootName : "h06/" + rootName;  // the working directory is the scratch directory
    if (r.chance (0.2)) root += "/";
    setOptions ({ r.chance (0.5) ? "--data-root-path" : "-d", root });
    struct Target { std::string given, real; bool creatable = true; };
    auto target = [&] (const std::string& leaf, bool mayFail)
    {
        Target t;
        std::string name = r.pick ({ "out", "with space", "\xc3\xbcnicode", "no_extension", ".hidden", "two.dots", "-dash", "UPPER" }) + std::string (leaf);
        const int kind = (int) r.range (0, mayFail && r.chance (0.25) ? 9 : 5);
        switch (kind)
        {
            case 0: t.given = name; t.real = base + "/" + rootName + "/" + name; break;
            case 1: t.given = "sub/" + name; t.real = base + "/" + rootName + "/sub/" + name; break;
            case 2: t.given = "sub/../" + name; t.real = base + "/" + rootName + "/" + name; break;
            case 3: t.given = base + "/elsewhere/" + name; t.real = t.given; break;
            case 4: t.given = base + "/elsewhere/deep er/" + name; t.real = t.given; break;
            case 5: t.given = r.pick ({ "../", "./../", "../outside/../", "..//" }) + name; t.real = base + "/" + rootName + "/../" + name; cx.saw ("outside the root"); break;
            case 6: case 7: t.given = "missing/" + name; t.creatable = false; break;
            case 8: t.given = base + "/elsewhere"; t.creatable = false; break;
            default: hv::writeFile (base + "/elsewhere/file", "x"); t.given = base + "/elsewhere/file/" + name; t.creatable = false; break;
        }
        if (t.creatable) t.real = fs::path (t.real).lexically_normal().string();
        return t;
    };
    using hart::Save;
    const bool wavWanted = ! plotToo || r.chance (0.6);
    Target wav = target (r.pick ({ ".wav", ".WAV", "" }), true), plot = target (r.pick ({ ".svg", ".plot" }), false);
    const Save wavMode = r.pick ({ Save::always, Save::whenFails, Save::never }), plotMode = r.pick ({ Save::always, Save::whenFails, Save::never });
    const auto format = r.pick ({ hart::WavFormat::pcm16, hart::WavFormat::pcm24, hart::WavFormat::pcm32, hart::WavFormat::float32 });
    for (auto t : { &wav, &plot })
        if (t->creatable && r.chance (0.25)) hv::writeFile (t->real, r.chance (0.3) ? std::string() : std::string ((size_t) r.range (1, 100000), 'o'));
    for (int i = (int) r.range (0, 3); i > 0; --i) hv::writeFile (base + "/elsewhere/bystander" + std::to_string (i), "b" + std::to_string (r.range (0, 99)));

    // the run
    auto log = newLog<T>();
    auto dsp = std::unique_ptr<RecordingDSP<T>> (new RecordingDSP<T> (log));
    const double scale = r.chance (0.2) ? 3.0 : 1.0, shift = r.uni (-0.2, 0.2);
    dsp->transform = [=] (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, size_t pos)
    {
        for (size_t ch = 0; ch < out.getNumChannels(); ++ch)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
                out[ch][f] = (T) (scale * in[ch % in.getNumChannels()][f] * (ch % 2 ? -1.0 : 1.0) + shift + 1e-3 * (double) ((pos + f) % 13));
    };
    // 0 nothing, 1 passing checks, 2 failing expectations, 3 failing assertion, 4 both, 5 the effect fails, 6 refused
    const int outcome = (int) r.range (0, 6);
    const bool never = wavMode == Save::never && plotMode == Save::never;
    if (outcome == 5) dsp->throwInProcess = true;
    if (outcome == 6) { const size_t no = c.in; dsp->layoutOk = [no] (size_t in, size_t) { return in != no; }; }
    std::vector<std::function<void (hart::AudioTestBuilder<T>&)>> steps;
    auto check = [&] (bool fails, bool assertion)
    {
        auto m = std::make_shared<ProbeMatcher<T>>();
        m->perBlock = r.chance (0.6);
        const size_t at = fails ? (size_t) r.range (0, (int64_t) c.frames - 1) : c.frames;
        const size_t channel = (size_t) r.range (0, (int64_t) c.out - 1);
        m->bad = [=] (size_t ch, size_t f, T) { return ch == channel && f >= at; };
        const bool inverted = r.chance (0.3);
        if (inverted) m->bad = [=] (size_t ch, size_t f, T) { return fails ? false : ch == channel && f == 0; };
        steps.push_back ([=] (hart::AudioTestBuilder<T>& b)
        {
            if (assertion) { if (inverted) b.assertFalse (*m); else b.assertTrue (*m); }
            else { if (inverted) b.expectFalse (*m); else b.expectTrue (*m); }
        });
    };
    if (outcome == 1) for (int i = (int) r.range (1, 3); i > 0; --i) check (false, r.chance (0.4));
    if (outcome == 2 || outcome == 4) for (int i = (int) r.range (1, 2); i > 0; --i) check (true, false);
    if (outcome == 3 || outcome == 4) for (int i = (int) r.range (1, 2); i > 0; --i) check (true, true);
    if (outcome >= 2 && r.chance (0.4)) check (false, r.chance (0.4));
    const bool replaced = r.chance (0.1), emptyPath = r.chance (0.1), shortForm = r.chance (0.15);
    const Save realWavMode = shortForm ? Save::always : wavMode;
    const auto realFormat = shortForm ? hart::WavFormat::pcm24 : format;
    const Save realPlotMode = shortForm ? Save::always : plotMode;
    (void) never;
    if (wavWanted)
        steps.push_back ([=] (hart::AudioTestBuilder<T>& b)
        {
            if (replaced) b.saveOutputTo (base + "/elsewhere/replaced.wav", Save::always, hart::WavFormat::pcm16);
            if (shortForm) b.saveOutputTo (wav.given); else b.saveOutputTo (wav.given, wavMode, format);
        });
    else if (emptyPath) steps.push_back ([=] (hart::AudioTestBuilder<T>& b) { b.saveOutputTo ("", wavMode, format); });
    if (plotToo)
        steps.push_back ([=] (hart::AudioTestBuilder<T>& b)
        {
            if (replaced) b.savePlotTo (base + "/elsewhere/replaced.svg");
            if (shortForm) b.savePlotTo (plot.given); else b.savePlotTo (plot.given, plotMode);
        });
    else if (emptyPath) steps.push_back ([=] (hart::AudioTestBuilder<T>& b) { b.savePlotTo ("", plotMode); });
    r.shuffle (steps);
    static const char* names[] = { "no checks", "passing", "failing expectation", "failing assertion", "failing both", "effect throws", "refused" };
    static const char* modes[] = { "always", "whenFails", "never" };
    cx.describe = hv::cat (c.str(), " ", names[outcome], wavWanted ? hv::cat (" wav '", wav.given, "' ", modes[(int) realWavMode], " format ", (int) realFormat) : "",
                           plotToo ? hv::cat (" plot '", plot.given, "' ", modes[(int) realPlotMode]) : "", " root '", root, "'");
    cx.nontrivial (cx.describe);
    if (cx.index % 300 == 0) cx.sample (cx.describe);

    const Tree before = snapshot (base);
    std::set<std::string> shardBefore, shardAfter;
    for (auto& e : fs::directory_iterator (cx.scratch)) shardBefore.insert (e.path().string());
    auto signalLog = newLog<T>();
    IndexSignal<T> signal (signalLog, r.u64() & 0xffff);
    const auto o = observe ([&]
    {
        hart::AudioTestBuilder<T> b (std::unique_ptr<hart::DSP<T>> (dsp.release()));
        b.withSampleRate (c.rate).withDuration (c.duration).withBlockSize (c.block).withInputChannels (c.in).withOutputChannels (c.out).withInputSignal (signal);
        for (auto& s : steps) s (b);
        b.process();
    });
    const Tree after = snapshot (base);
    for (auto& e : fs::directory_iterator (cx.scratch)) shardAfter.insert (e.path().string());
    cx.saw ("runs");
    cx.saw (std::string ("outcome ") + names[outcome]);
    if (shardAfter != shardBefore) cx.viol ("stray-file", "a file appeared in or vanished from the working directory");

    const bool failed = outcome >= 2 && outcome <= 4, completed = outcome <= 4;
    auto due = [&] (bool wanted, Save mode) { return wanted && completed && (mode == Save::always || (mode == Save::whenFails && failed)); };
    const bool wavDue = due (wavWanted, realWavMode), plotDue = due (plotToo, realPlotMode);
    const bool ioError = wavDue && ! wav.creatable;

    // verdicts
    if (ioError)
    {
        cx.saw ("uncreatable wav files");
        if (o.errorType != "IO" && ! (o.assertFailed && outcome >= 3)) cx.viol ("no-io-error", "a wav file that cannot be created gave " + (o.threw ? o.errorType : std::string ("no error")));
        if (outcome >= 3) cx.saw ("uncreatable wav file and failing assertion");
    }
    else if (completed)
    {
        if (o.assertFailed != (outcome == 3 || outcome == 4)) cx.viol ("assertion-lost", hv::cat ("assertion ", o.assertFailed ? "failed" : "did not fail", ": ", o.error));
        if (o.threw && ! o.assertFailed) cx.viol ("unexpected-error", o.errorType + ": " + o.error);
    }
    else if (! o.threw) cx.viol ("error-lost", "the run ended without the error");
    if (failed && outcome == 2 && ! (o.expects.size() > 0) && ! o.assertFailed) cx.viol ("failure-lost", "no failed expectation is on record");
    if (wavWanted && ! wav.creatable && ! wavDue) cx.saw ("uncreatable wav files that are not due");

    // files
    auto plotPath = fs::path (plot.real).lexically_normal().string();
    for (auto& kv : after)
    {
        const auto was = before.find (kv.first);
        if (was != before.end() && was->second == kv.second) continue;
        const bool isWav = wavWanted && wav.creatable && kv.first == wav.real, isPlot = plotToo && kv.first == plotPath;
        if (isWav && ! wavDue && ! (outcome == 5 && realWavMode != Save::never)) cx.viol ("wav-not-due", "a wav file was written though it was not due");
        else if (isPlot && ! plotDue && ! (outcome == 5 && realPlotMode != Save::never)) cx.viol ("plot-not-due", "a plot was written though it was not due");
        else if (! isWav && ! isPlot) cx.viol ("stray-file", "'" + kv.first.substr (base.size()) + "' was written or changed");
    }
    for (auto& kv : before) if (after.count (kv.first) == 0) cx.viol ("file-removed", "'" + kv.first.substr (base.size()) + "' has vanished");
    if (wavDue && wav.creatable)
    {
        cx.saw ("wav files");
        if (failed) cx.saw ("wav files of failed runs");
        if (after.count (wav.real) == 0) cx.viol ("no-wav", "the wav file was not written");
        else
        {
            const auto e = compareRiff (readRiff (hv::readFile (wav.real)), log->out, c.frames, c.rate, realFormat);
            if (! e.empty()) cx.viol ("wav-content", e);
            if (log->out[0].size() != c.frames) cx.viol ("wav-content", hv::cat ("the effect processed ", log->out[0].size(), " frames of ", c.frames));
        }
    }
    if (plotDue && ! ioError)
    {
        cx.saw ("plots");
        if (failed) cx.saw ("plots of failed runs");
        if (after.count (plotPath) == 0) cx.viol ("no-plot", "the plot was not written");
        else
        {
            const auto v = comparePlot (hv::readFile (plotPath), asDoubles (signalLog->out), asDoubles (log->out), c.rate);
            if (! v.key.empty()) cx.viol ("plot-" + v.key, v.error);
            if (log->out[0].size() != c.frames) cx.viol ("plot-content", hv::cat ("the effect processed ", log->out[0].size(), " frames of ", c.frames));
        }
    }
    if (! wavDue && ! plotDue) cx.saw ("runs that save nothing");
    fs::remove_all (base);
}

void hv_case (hv::Ctx& cx)
{
    if (cx.rng.chance (0.5)) run<float> (cx); else run<double> (cx);
}
