// S01: rendering any stock signal with any chain gives the same audio however it is cut into
// blocks, and after a reset the same audio as a fresh instance.
#include "stock.hpp"
using namespace hp;

template <typename T> static double tolerance (const SigSpec& s, const Planes<T>& want)
{
    bool pureNoise = s.kind == 2 && s.chain.empty();
    if (pureNoise || s.kind == 1) return s.chain.empty() ? 0 : 1e-6;
    double top = 1;
    for (auto& c : want) for (T v : c) top = std::max (top, std::abs ((double) v));
    return 1e-6 * top;
}

template <typename T> static void checkFilled (hv::Ctx& cx, const Planes<T>& p, const char* how)
{
    for (size_t c = 0; c < p.size(); ++c)
        for (size_t f = 0; f < p[c].size(); ++f)
            if (p[c][f] == sentinel<T>() || ! std::isfinite (p[c][f]))
            {
                cx.viol (hv::cat ("not-filled:", how), hv::cat ("channel ", c, " frame ", f, " holds ", p[c][f]));
                return;
            }
}

/// total frames cut into blocks none of which is larger than `block`
static std::vector<size_t> parts (hv::Rng& r, size_t total, size_t block)
{
    return r.chance (0.5) ? hv::hostPartition (total, block) : hv::genPartition (r, total, block);
}

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const double rate = hv::genRate (r);
    const size_t channels = r.chance (0.9) ? (size_t) r.range (1, 4) : hv::genChannels (r, 64);
    const size_t budget = cx.thorough && r.chance (0.02) ? 400000 : r.chance (0.1) ? 20000 : 3000;
    const size_t frames = hv::genSize (r, std::max<size_t> (2, budget / channels));
    const SigSpec spec = genSig (r, rate, channels, frames, cx.scratch, 4, true, true);
    cx.describe = hv::cat (hv::typeTag<T>(), " rate=", rate, " channels=", channels, " frames=", frames, " ", spec.str());
    cx.nontrivial (cx.describe);
    cx.sample (cx.describe);

    // the whole audio in one block
    const Planes<T> want = renderFresh<T> (spec, rate, channels, frames, frames);
    checkFilled (cx, want, "one block");
    const double tol = tolerance (spec, want);
    const std::string kind = spec.str().substr (0, 5) + (spec.chain.empty() ? "" : "+chain");

    // other partitions
    for (int i = 0; i < 3; ++i)
    {
        const size_t block = i == 0 ? hv::genSize (r, frames) : hv::genSize (r, frames + 50);
        const auto p = i == 0 ? hv::hostPartition (frames, block) : hv::genPartition (r, frames, block);
        auto s = spec.make<T>();
        if (r.chance (0.5)) start (*s, rate, channels, block);
        else s->prepareWithDSPChain (rate, channels, block);  // a new instance needs no reset
        const auto got = renderAll (*s, channels, p);
        const auto d = diff (got, want, tol);
        cx.need (d.empty(), "partition:" + kind, hv::cat ("cut into ", p.size(), " blocks of up to ", block, ": ", d));
        cx.saw ("partitions");
        cx.saw ("blocks", p.size());
        cx.saw ("samples compared", frames * channels);

        // after anything, a reset starts over
        const int resets = (int) r.range (1, 2);
        for (int k = 0; k < resets; ++k)
        {
            // renders some more first, possibly nothing
            if (r.chance (0.6)) renderAll (*s, channels, parts (r, (size_t) r.range (0, (int64_t) std::min<size_t> (frames, 3000)), block));
            size_t block2 = block;
            double rate2 = rate;
            size_t channels2 = channels;
            const int how = (int) r.range (0, 3);
            if (how == 0) s->resetWithDSPChain();
            else
            {
                if (r.chance (0.5)) block2 = hv::genSize (r, frames + 50);
                if (spec.kind != 4 && r.chance (0.3)) rate2 = hv::genRate (r);
                if (r.chance (0.3)) channels2 = (size_t) r.range (1, (int64_t) channels);
                if (how == 1) { s->prepareWithDSPChain (rate2, channels2, block2); s->resetWithDSPChain(); }
                else start (*s, rate2, channels2, block2);
            }
            const bool same = rate2 == rate && channels2 == channels;
            const Planes<T> want2 = same ? want : renderFresh<T> (spec, rate2, channels2, frames, frames);
            const auto again = renderAll (*s, channels2, parts (r, frames, block2));
            const auto d2 = diff (again, want2, tolerance (spec, want2));
            static const char* names[] = { "reset", "prepare+reset", "reset+prepare", "reset+prepare" };
            cx.need (d2.empty(), hv::cat ("reset:", kind, same ? "" : ":reconfigured"), hv::cat (names[how], " then ", rate2, " Hz ", channels2, " channels: ", d2));
            cx.saw ("resets");
            if (! same) cx.saw ("resets to another rate or layout");
            if (! same) { start (*s, rate, channels, block); }
            else if (block2 != block) start (*s, rate, channels, block);
        }
    }
    cx.saw ("signals " + std::to_string (spec.kind));
    if (! spec.chain.empty()) cx.saw ("with chains");
    for (auto& f : spec.chain) if (f.hasEnv) { cx.saw ("with automation"); break; }
}

void hv_case (hv::Ctx& cx)
{
    if (cx.rng.chance (0.5)) run<float> (cx); else run<double> (cx);
}
