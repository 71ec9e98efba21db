// H01: what the host feeds the tested effect, judged on the callback log of a recording effect
// and a recording input signal whose every sample tells its channel and frame.
#include "probes.hpp"
using namespace hp;

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    auto c = genConfig<T> (r, cx.thorough ? 1000000 : 150000);
    if (c.frames == 0) return;
    const bool useDefaultRate = r.chance (0.05);
    const bool multi = r.chance (0.3);
    const int runs = multi ? (int) r.range (2, 4) : 1;
    cx.describe = c.str() + hv::cat (" runs=", runs);
    cx.nontrivial (cx.describe);

    auto dlog = newLog<T>(), slog = newLog<T>();
    RecordingDSP<T> dsp (dlog);
    IndexSignal<T> sig (slog, (uint64_t) r.range (0, 1000));
    if (r.chance (0.3)) { hart::AudioBuffer<T> warm (1, 17); sig.renderNextBlock (warm); slog->clear(); }  // must be reset by the host

    std::unique_ptr<hart::DSP<T>> inst (new RecordingDSP<T> (dsp));
    for (int k = 0; k < runs; ++k)
    {
        if (k > 0 && r.chance (0.6)) { auto salt = sig.salt; c = genConfig<T> (r, 100000); if (c.frames == 0) return; sig.salt = salt; }
        cx.describe = c.str() + hv::cat (" run ", k, " of ", runs);
        dlog->clear();
        slog->clear();
        const auto values = genValues (r);

        hart::AudioTestBuilder<T> b (std::move (inst));
        if (! useDefaultRate) b.withSampleRate (c.rate);
        const double rate = useDefaultRate ? 44100.0 : c.rate;
        const size_t frames = (size_t) std::llround (rate * c.duration);
        if (frames == 0 || frames * std::max (c.in, c.out) > 300000) return;
        if (frames / c.block > 600) c.block = frames / 100 + 1;
        b.withBlockSize (c.block).withDuration (c.duration).withInputChannels (c.in).withOutputChannels (c.out).withInputSignal (sig);
        for (auto& v : values) b.withValue (v.first, v.second);
        ProbeMatcher<T> pm;
        pm.perBlock = r.chance (0.5);
        if (r.chance (0.5)) b.expectTrue (pm);
        slog->clear();  // drops what happened at setup time (support queries are allowed then)
        inst = b.process();

        cx.need (inst != nullptr, "no-instance-returned", "process() returned no effect");
        const auto& ev = dlog->events;
        const auto me = std::this_thread::get_id();
        // blocks
        const auto want = hv::hostPartition (frames, c.block);
        cx.need (dlog->blocks == want, "block-sequence", [&] {
            std::string s = hv::cat ("blocks processed: ", dlog->blocks.size(), " of ", want.size());
            for (size_t i = 0; i < std::min (dlog->blocks.size(), want.size()); ++i)
                if (dlog->blocks[i] != want[i]) { s += hv::cat ("; block ", i, " has ", dlog->blocks[i], " frames, want ", want[i]); break; }
            return s;
        }());
        for (auto& m : dlog->envelopeErrors) cx.viol ("io-length", m);
        // audio
        Planes<T> model (c.in, std::vector<T> (frames));
        for (size_t ch = 0; ch < c.in; ++ch) for (size_t f = 0; f < frames; ++f) model[ch][f] = indexValue<T> (ch, f, c.in, sig.salt);
        cx.need (diff (dlog->in, model, 0).empty(), "input-audio", "the effect received other audio: " + diff (dlog->in, model, 0));
        // callback order
        const int firstProcess = dlog->first (Event::process), lastPrepare = dlog->last (Event::prepare), firstPrepare = dlog->first (Event::prepare);
        const int lastReset = dlog->last (Event::reset), layout = dlog->first (Event::supLayout), srate = dlog->first (Event::supRate);
        cx.need (layout >= 0 && layout < firstPrepare, "no-layout-query", "the effect was not asked for the layout before prepare");
        cx.need (dlog->first (Event::supRate) >= 0 && srate < firstPrepare, "no-rate-query", "the effect was not asked for the rate before prepare");
        bool askedLayout = false, askedRate = false;
        for (int i = 0; i < firstPrepare; ++i)
        {
            askedLayout |= ev[(size_t) i].kind == Event::supLayout && ev[(size_t) i].a == c.in && ev[(size_t) i].b == c.out;
            askedRate |= ev[(size_t) i].kind == Event::supRate && ev[(size_t) i].x == rate;
        }
        cx.need (askedLayout, "layout-query-args", "the effect was not asked about the layout it then got");
        cx.need (askedRate, "rate-query-args", "the effect was not asked about the rate it then got");
        cx.need (dlog->count (Event::prepare) == 1, "prepare-count", hv::cat ("prepared ", dlog->count (Event::prepare), " times"));
        cx.need (lastReset >= 0 && lastReset < firstProcess, "reset-before-audio", "no reset before the first block, or a reset after it");
        cx.need (lastReset < lastPrepare, "reset-after-prepare", "reset after prepare");
        cx.need (lastPrepare >= 0 && lastPrepare < firstProcess, "prepare-before-audio", "no prepare before the first block, or one after it");
        if (lastPrepare >= 0)
        {
            auto& p = ev[(size_t) lastPrepare];
            cx.need (p.x == rate && p.a == c.in && p.b == c.out && p.c == c.block, "prepare-args",
                     hv::cat ("prepared with rate ", p.x, " in ", p.a, " out ", p.b, " block ", p.c));
        }
        std::vector<std::pair<int, double>> got;
        for (size_t i = 0; i < ev.size(); ++i)
        {
            if (ev[i].kind == Event::setValue)
            {
                got.push_back ({ ev[i].id, ev[i].x });
                cx.need ((int) i < firstProcess && (int) i > lastPrepare && (int) i > lastReset, "value-timing", "a parameter value was set at the wrong time");
            }
            if (ev[i].kind == Event::process)
                cx.need (ev[i].a == c.in && ev[i].b == c.out, "block-channels", hv::cat ("a block with ", ev[i].a, " in, ", ev[i].b, " out"));
            cx.need (ev[i].thread == me, "thread", hv::cat (kindName (ev[i].kind), " on another thread"));
        }
        cx.need (got == values, "values", hv::cat ("got ", got.size(), " parameter values, want ", values.size(), ", or in another order"));
        // the signal's side
        const int sp = slog->first (Event::process), spr = slog->last (Event::prepare), sr = slog->last (Event::reset);
        cx.need (slog->blocks == want, "signal-blocks", "the input signal was asked for other blocks");
        cx.need (spr >= 0 && spr < sp && slog->count (Event::prepare) == 1, "signal-prepare", "input signal not prepared once before rendering");
        cx.need (sr >= 0 && sr < sp, "signal-reset", "input signal not reset before rendering, or reset later");
        if (spr >= 0)
        {
            auto& p = slog->events[(size_t) spr];
            cx.need (p.x == rate && p.a == c.in && p.c == c.block, "signal-prepare-args", hv::cat ("signal prepared with rate ", p.x, " channels ", p.a, " block ", p.c));
        }
        for (auto& e : slog->events) if (e.kind == Event::process) cx.need (e.a == c.in, "signal-channels", "the input signal was asked for a wrong number of channels");

        cx.saw ("runs");
        cx.saw ("blocks", dlog->blocks.size());
        cx.saw ("frames", frames);
        cx.saw ("callbacks", ev.size() + slog->events.size());
        if (! want.empty() && want.back() != c.block) cx.saw ("short-last-blocks");
        if (cx.index < 4) cx.sample (cx.describe + hv::cat (" callbacks=", ev.size()));
    }
}

/// more frames than a float can count
template <typename T> static void veryLong (hv::Ctx& cx)
{
    const size_t frames = 16777216 + 1001, block = 1000003;
    struct Counter { size_t total = 0, blocks = 0, wrong = 0, wrongSize = 0; };
    auto count = std::make_shared<Counter>();
    struct Mod : hart::Signal<T>
    {
        size_t pos = 0;
        bool supportsNumChannels (size_t) const override { return true; }
        void prepare (double, size_t, size_t) override {}
        void renderNextBlock (hart::AudioBuffer<T>& o) override { for (size_t f = 0; f < o.getNumFrames(); ++f, ++pos) o[0][f] = (T) (pos % 65521); }
        void reset() override { pos = 0; }
        void represent (std::ostream& s) const override { s << "Mod()"; }
        std::unique_ptr<hart::Signal<T>> copy() const override { return std::unique_ptr<hart::Signal<T>> (new Mod (*this)); }
        std::unique_ptr<hart::Signal<T>> move() override { return std::unique_ptr<hart::Signal<T>> (new Mod (*this)); }
    };
    RecordingDSP<T> d (newLog<T>());
    d.keepAudio = false;
    d.transform = [count, frames, block] (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, size_t)
    {
        const size_t n = in.getNumFrames();
        if (n != std::min (block, frames - std::min (frames, count->total)) || out.getNumFrames() != n) ++count->wrongSize;
        for (size_t f = 0; f < n; ++f) { if (in[0][f] != (T) ((count->total + f) % 65521)) ++count->wrong; out[0][f] = 0; }
        count->total += n;
        ++count->blocks;
    };
    cx.describe = hv::typeTag<T>() + " very long run";
    cx.nontrivial (cx.describe);
    hart::processAudioWith (d).withSampleRate (192000).withDuration ((double) frames / 192000).withBlockSize (block).withInputSignal (Mod()).process();
    cx.need (count->total == frames, "long-run-length", hv::cat (count->total, " frames of ", frames, " were processed"));
    cx.need (count->wrongSize == 0, "long-run-blocks", hv::cat (count->wrongSize, " blocks of another size"));
    cx.need (count->wrong == 0, "long-run-audio", hv::cat (count->wrong, " frames of other audio"));
    cx.saw ("frames", count->total);
    cx.saw ("very long runs");
}

void hv_case (hv::Ctx& cx)
{
    if (cx.index == 0) { veryLong<float> (cx); return; }
    if (cx.index == 1) { veryLong<double> (cx); return; }
    if (cx.index % 2) run<float> (cx); else run<double> (cx);
}
