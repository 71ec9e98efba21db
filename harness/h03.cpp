// H03: the decision of every check, against the verdict of its predicate on the complete output.
#include "stock.hpp"
using namespace hp;

struct CheckModel
{
    std::string name;
    bool perBlock, shouldPass, isAssert;
    bool bad;                 // the predicate rejects the complete output
    size_t firstBad = 0;      // frame of the first rejected sample
    bool fails() const { return bad == shouldPass; }
};

template <typename T, typename M> static void attach (hv::Rng& r, hart::AudioTestBuilder<T>& b, const M& m, bool isAssert, bool shouldPass)
{
    const int how = (int) r.range (0, 3);
    M copy (m);
    const M& cref = copy;
    const hart::Matcher<T>& base = copy;
    auto go = [&] (auto&& x)
    {
        using X = decltype (x);
        if (isAssert) { if (shouldPass) b.assertTrue (std::forward<X> (x)); else b.assertFalse (std::forward<X> (x)); }
        else { if (shouldPass) b.expectTrue (std::forward<X> (x)); else b.expectFalse (std::forward<X> (x)); }
    };
    if (how == 0) go (copy);
    else if (how == 1) go (std::move (copy));
    else if (how == 2) go (cref);
    else go (base);
}

template <typename T> static void probes (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const bool isLong = r.chance (0.004);
    auto c = isLong ? genLongConfig<T> (r) : genConfig<T> (r, 40000, false, r.chance (0.05) ? 128 : 9);
    if (c.frames == 0) return;
    if (isLong) cx.saw ("long audio");
    const uint64_t salt = (uint64_t) r.range (0, 100);
    Planes<T> out (c.out, std::vector<T> (c.frames));
    for (size_t ch = 0; ch < c.out; ++ch) for (size_t f = 0; f < c.frames; ++f) out[ch][f] = indexValue<T> (ch % c.in, f, c.in, salt);

    std::vector<CheckModel> checks;
    std::vector<std::shared_ptr<MatcherLog<T>>> logs;
    auto log = newLog<T>();
    RecordingDSP<T> dsp (log);
    hart::AudioTestBuilder<T> b (dsp);
    b.withSampleRate (c.rate).withBlockSize (c.block).withDuration (c.duration).withInputChannels (c.in).withOutputChannels (c.out).withInputSignal (IndexSignal<T> (newLog<T>(), salt));
    const bool many = ! isLong && r.chance (0.06);
    const int n = many ? (int) r.range (7, 70) : (int) r.range (0, 6);
    const double pAssert = r.chance (0.5) ? 0.0 : many ? 0.02 : 0.3, pBad = r.pick<double> ({ 0.1, 0.5, 0.8 });
    const bool saving = r.chance (0.15);
    std::string desc;
    for (int i = 0; i < n; ++i)
    {
        CheckModel m;
        m.name = hv::cat ("Check", i);
        m.perBlock = r.chance (0.6);
        m.shouldPass = r.chance (0.6);
        m.isAssert = r.chance (pAssert);
        m.bad = r.chance (pBad);
        ProbeMatcher<T> p;
        p.name = m.name;
        p.perBlock = m.perBlock;
        if (m.bad)
        {
            // one or several bad samples; boundaries of blocks and of the audio are favoured
            auto spots = std::make_shared<std::set<std::pair<size_t, size_t>>>();
            const int k = (int) r.range (1, 3);
            for (int j = 0; j < k; ++j)
            {
                size_t f = (size_t) r.range (0, (int64_t) c.frames - 1);
                switch (r.range (0, 4))
                {
                    case 0: f = 0; break;
                    case 1: f = c.frames - 1; break;
                    case 2: f = std::min (c.frames - 1, f / c.block * c.block); break;
                    case 3: f = std::min (c.frames - 1, f / c.block * c.block + c.block - 1); break;
                    default: break;
                }
                spots->insert ({ (size_t) r.range (0, (int64_t) c.out - 1), f });
            }
            m.firstBad = c.frames;
            for (auto& s : *spots) m.firstBad = std::min (m.firstBad, s.second);
            p.bad = [spots] (size_t ch, size_t f, T) { return spots->count ({ ch, f }) != 0; };
        }
        logs.push_back (p.log);
        attach<T> (r, b, p, m.isAssert, m.shouldPass);
        checks.push_back (m);
        desc += hv::cat (" ", m.isAssert ? "assert" : "expect", m.shouldPass ? "True" : "False", m.perBlock ? "/block" : "/full", m.bad ? hv::cat (" bad@", m.firstBad) : "");
    }
    if (saving) b.saveOutputTo (cx.scratch + "/h03.wav", r.pick<hart::Save> ({ hart::Save::always, hart::Save::whenFails }));
    cx.describe = c.str() + desc + (saving ? " saving" : "");
    cx.nontrivial (cx.describe);

    std::unique_ptr<hart::DSP<T>> back;
    const Outcome o = observe ([&] { back = b.process(); });

    std::set<std::string> failingExpects, failingAsserts, reported;
    size_t firstAssertBlock = (size_t) -1;  // block after which the test may end early
    for (auto& m : checks)
        if (m.fails())
        {
            (m.isAssert ? failingAsserts : failingExpects).insert (m.name);
            if (m.isAssert && m.perBlock && m.shouldPass) firstAssertBlock = std::min (firstAssertBlock, m.firstBad / c.block);
        }
    cx.need (o.assertFailed == ! failingAsserts.empty() && o.threw == o.assertFailed, failingAsserts.empty() ? "false-alarm" : "missed-assert",
             o.threw ? "the run ended with: " + o.errorType + " " + o.error : "the run ended without a failure");
    auto nameIn = [&] (const std::string& text) -> const CheckModel*
    {
        for (auto& m : checks) if (text.find (m.name + " (") != std::string::npos) return &m;
        return nullptr;
    };
    if (o.assertFailed)
    {
        auto* m = nameIn (o.error);
        cx.need (m && failingAsserts.count (m->name), "wrong-assert", "the failure names another check: " + o.error);
    }
    for (auto& e : o.expects)
    {
        auto* m = nameIn (e);
        cx.need (m && failingExpects.count (m->name), "false-expect", "reported although it holds: " + e);
        if (m)
        {
            cx.need (reported.insert (m->name).second, "reported-twice", "reported more than once: " + e);
            const std::string kind = m->shouldPass ? "expectTrue()" : "expectFalse()";
            cx.need (e.find (kind) != std::string::npos, "report-kind", "reported as another kind of check: " + e);
        }
    }
    for (auto& m : checks)
        if (m.fails() && ! m.isAssert && ! reported.count (m.name))
        {
            // only an assertion that ends the test may keep an expectation from being reported
            const bool perBlockJudged = m.perBlock && m.shouldPass;
            const bool before = failingAsserts.empty() || (perBlockJudged && (firstAssertBlock == (size_t) -1 || m.firstBad / c.block < firstAssertBlock));
            cx.need (! before, "missed-expect", m.name + " should have been reported as failed");
        }
    // what the matchers saw
    for (size_t i = 0; i < checks.size(); ++i)
    {
        auto& m = checks[i];
        auto& l = *logs[i];
        const bool early = ! failingAsserts.empty();
        cx.need (l.prepares >= 1 && l.rate == c.rate && l.channels == c.out, "matcher-prepare", hv::cat (m.name, " prepared ", l.prepares, " times, rate ", l.rate, " channels ", l.channels));
        cx.need (l.resets >= 1, "matcher-reset", m.name + " was not reset before the run");
        size_t biggest = 0;
        for (size_t s : l.blocks) biggest = std::max (biggest, s);
        cx.need (biggest <= l.block, "matcher-block-size", hv::cat (m.name, " was prepared for ", l.block, " frames and got ", biggest));
        const size_t got = l.seen.empty() ? 0 : l.seen[0].size();
        Planes<T> prefix = out;
        for (auto& p : prefix) p.resize (std::min (got, c.frames));
        if (got > 0) cx.need (diff (l.seen, prefix, 0).empty(), "matcher-audio", m.name + " did not see the output from its start, each frame once: " + diff (l.seen, prefix, 0));
        if (! early)
        {
            const size_t need = m.fails() && m.shouldPass ? m.firstBad + 1 : c.frames;
            cx.need (got >= need, "matcher-incomplete", hv::cat (m.name, " saw ", got, " frames only, of ", c.frames));
        }
        cx.saw ("matcher calls", l.matches);
    }
    if (! o.threw)
    {
        cx.need (back != nullptr, "no-instance", "no effect came back");
        cx.need (diff (log->out, out, 0).empty(), "run-incomplete", "the run did not process everything: " + diff (log->out, out, 0));
    }
    if (saving) ::unlink ((cx.scratch + "/h03.wav").c_str());
    cx.saw ("checks", checks.size());
    cx.saw ("failing expectations", failingExpects.size());
    cx.saw ("failing assertions", failingAsserts.size());
    if (! failingExpects.empty() && checks.size() > failingExpects.size() + failingAsserts.size()) cx.saw ("mixed outcomes");
    if (cx.index < 12) cx.sample (cx.describe);
}

/// stock matchers give the verdict on the complete output for every block size
template <typename T> static void stock (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const size_t channels = (size_t) r.range (1, 4), frames = hv::genSize (r, 3000);
    auto audio = randomPlanes<T> (r, channels, frames, 0.3);
    // one loud sample somewhere
    const bool loud = r.chance (0.7);
    const size_t lc = (size_t) r.range (0, (int64_t) channels - 1), lf = r.chance (0.3) ? frames - 1 : (size_t) r.range (0, (int64_t) frames - 1);
    if (loud) audio[lc][lf] = (T) (r.chance (0.5) ? 0.75 : -0.75);
    double peak = 0;
    for (auto& p : audio) for (T v : p) peak = std::max (peak, (double) std::abs (v));
    auto ref = audio;
    const bool deviates = r.chance (0.5);
    const double tol = r.pick<double> ({ 1e-3, 1e-5, 0.1 });
    if (deviates) { T& v = ref[(size_t) r.range (0, (int64_t) channels - 1)][r.chance (0.3) ? frames - 1 : (size_t) r.range (0, (int64_t) frames - 1)]; v += (T) (tol * (r.chance (0.5) ? 2 : -2)); }
    const size_t block = r.chance (0.2) ? frames + 7 : std::max<size_t> ((frames + 99) / 100, hv::genSize (r, frames));
    struct K { const char* name; bool ok; };
    std::vector<K> kinds;
    hart::AudioTestBuilder<T> b (RecordingDSP<T> {});
    b.withBlockSize (block).withDuration ((double) frames / 44100.0).withInputChannels (channels).withOutputChannels (channels).withInputSignal (DataSignal<T> (audio));
    const int n = (int) r.range (1, 4);
    size_t wantExpects = 0;
    bool wantAssert = false;
    std::string desc;
    for (int i = 0; i < n; ++i)
    {
        const bool isAssert = r.chance (0.2), sp = r.chance (0.6);
        bool ok = false;
        switch (r.range (0, 2))
        {
            case 0: ok = ! deviates; attach<T> (r, b, hart::EqualsTo<T> (DataSignal<T> (ref), tol), isAssert, sp); desc += " EqualsTo"; break;
            case 1:
            {
                const double t = r.pick<double> ({ 0.5, 0.75, 0.9 });
                ok = std::abs (peak - t) <= 1e-3;
                attach<T> (r, b, hart::PeaksAt<T> (20 * std::log10 (t)), isAssert, sp);
                desc += hv::cat (" PeaksAt ", t);
                break;
            }
            case 2:
            {
                const double t = r.pick<double> ({ 0.5, 0.9 });
                ok = peak <= t;
                attach<T> (r, b, hart::PeaksBelow<T> (20 * std::log10 (t)), isAssert, sp);
                desc += hv::cat (" PeaksBelow ", t);
                break;
            }
        }
        desc += sp ? "" : "(inverted)";
        if (ok != sp) { if (isAssert) wantAssert = true; else ++wantExpects; }
    }
    cx.describe = hv::cat ("stock", desc, " channels ", channels, " frames ", frames, " block ", block, " loud ", loud, " deviates ", deviates);
    cx.nontrivial (cx.describe);
    const auto o = observe ([&] { b.process(); });
    cx.need (o.assertFailed == wantAssert && o.threw == wantAssert, "stock-assert", "assertion verdict: " + o.errorType + o.error);
    if (! wantAssert) cx.need (o.expects.size() == wantExpects, "stock-expects", hv::cat (o.expects.size(), " failed expectations, want ", wantExpects));
    else cx.need (o.expects.size() <= wantExpects, "stock-expects", hv::cat (o.expects.size(), " failed expectations, want at most ", wantExpects));
    cx.saw ("stock checks", (uint64_t) n);
}

template <typename T> static void one (hv::Ctx& cx) { if (cx.rng.chance (0.7)) probes<T> (cx); else stock<T> (cx); }

void hv_case (hv::Ctx& cx)
{
    if (cx.index % 2) one<float> (cx); else one<double> (cx);
}
