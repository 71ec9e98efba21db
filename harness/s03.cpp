// S03: sine, silence and white noise contain exactly what they promise.
#include "stock.hpp"
using namespace hp;

static const long double PI_L = 3.14159265358979323846264338327950288L;

template <typename T> static void sine (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const double rate = hv::genRate (r);
    const bool defaults = r.chance (0.05), onlyFreq = ! defaults && r.chance (0.1);
    const int fm = (int) r.range (0, 5);
    double f = fm == 0 ? rate / (double) r.range (2, 200) : fm == 1 ? std::exp (r.uni (std::log (1e-4), std::log (rate * 3))) : fm == 2 ? r.uni (0.1, rate / 2)
             : fm == 3 ? r.pick<double> ({ 1.0, 20.0, 50.0, 440.0, 1000.0, 997.0, 10000.0, 20000.0 }) : fm == 4 ? rate * (double) r.range (1, 3) : r.uni (0.001, 5);
    double phase = r.chance (0.3) ? 0 : r.chance (0.5) ? r.uni (-7, 7) : r.chance (0.5) ? r.uni (-1e4, 1e4)
                 : r.pick<double> ({ hart::pi, -hart::pi, hart::twoPi, -hart::twoPi, hart::halfPi, 2 * hart::twoPi, 1e-300, -1e-300, -1e-17 });
    if (defaults) { f = 1000; phase = 0; }
    if (onlyFreq) phase = 0;
    const size_t channels = cx.index < 2 ? 1 : hv::genChannels (r, 128);
    const size_t longest = cx.index < 2 ? 17500000 : cx.thorough && r.chance (0.01) ? 3000000 : r.chance (0.005) ? 300000 : r.chance (0.1) ? 30000 : 1500;
    const size_t frames = cx.index < 2 ? longest : hv::genSize (r, std::max<size_t> (1, longest / channels)), block = cx.index < 2 ? 65536 : hv::genSize (r, 8192);
    if (cx.index < 2) f = r.uni (0.01, 0.3) * rate, phase = 1;
    cx.describe = hv::cat (hv::typeTag<T>(), " SineWave (", f, ", ", phase, ") rate=", rate, " channels=", channels, " frames=", frames, " block=", block);
    cx.nontrivial (cx.describe);

    using S = hart::SineWave<T>;
    S s = cx.index < 2 ? S (f, phase) : defaults ? S() : onlyFreq ? S (f) : S (f, phase);
    if (cx.index >= 2 && r.chance (0.2))
    {
        // used before at another rate
        const double other = hv::genRate (r);
        start<T> (s, other, channels, 64);
        renderAll<T> (s, channels, hv::genPartition (r, (size_t) r.range (1, 50), 64));
        cx.saw ("other rates before");
    }
    start<T> (s, rate, channels, block);
    if (r.chance (0.3)) { renderAll<T> (s, channels, hv::genPartition (r, (size_t) r.range (1, 50), block)); s.resetWithDSPChain(); }
    const auto got = renderAll<T> (s, channels, cx.index < 2 ? hv::hostPartition (frames, block) : hv::genPartition (r, frames, block));
    const double step = 2 * hart::pi * f / rate;
    for (size_t k = 0; k < frames; k += cx.index < 2 && k > 100000 && k < 16700000 ? 97 : 1)
    {
        const long double turns = std::fmod ((long double) f * (long double) k / (long double) rate, 1.0L);
        const double want = (double) std::sin ((long double) phase + 2 * PI_L * turns);
        const double tol = (sizeof (T) == 4 ? 1e-6 : 1e-7) + 4e-16 * (std::abs (phase) + (double) k * (step + 7));
        for (size_t c = 0; c < channels; ++c)
            if (! (std::abs ((double) got[c][k] - want) <= tol))
            {
                cx.viol (c > 0 && std::abs ((double) got[0][k] - want) <= tol ? "sine-channels" : "sine-value", hv::cat ("channel ", c, " frame ", k, ": got ", got[c][k], ", want ", want));
                return;
            }
    }
    cx.saw ("sines");
    cx.saw ("sine samples", frames * channels);
    cx.saw (hv::cat ("sine length 10^", (int) std::log10 ((double) frames)));
}

template <typename T> static void hugePhase (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const double phase = (r.chance (0.5) ? 1 : -1) * std::pow (10.0, r.uni (5, 300)), f = r.uni (1, 20000);
    cx.describe = hv::cat (hv::typeTag<T>(), " SineWave (", f, ", ", phase, ")");
    cx.nontrivial (cx.describe);
    hart::SineWave<T> s (f, phase);
    start<T> (s, 44100, 2, 64);
    const auto a = renderAll<T> (s, 2, hv::hostPartition (200, 64));
    for (auto& c : a) for (T v : c) if (! (std::abs (v) <= (T) 1)) { cx.viol ("sine-range", hv::cat ("a sample is ", v)); return; }
    cx.need (a[0] == a[1], "sine-channels", "channels differ");
    cx.saw ("huge phases");
}

template <typename T> static void invalidSine (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const double f = r.pick<double> ({ 0.0, -0.0, -1.0, -1e-9, -1e-300, -5e-324, -1e300, -hart::inf, std::nan (""), -440, -r.uni (0, 1e5) });
    cx.describe = hv::cat (hv::typeTag<T>(), " SineWave (", f, ")");
    cx.nontrivial (cx.describe);
    const auto o = observe ([&] { hart::SineWave<T> s (f, r.uni (-10, 10)); });
    cx.need (o.errorType == "Value", "sine-invalid-frequency", "no value error, but: " + (o.threw ? o.errorType : std::string ("accepted")));
    const double ok = r.pick<double> ({ 5e-324, 1e-300, 1e-9, 1e-3, 1e6, 1e300, r.uni (1e-6, 1) });
    const auto o2 = observe ([&] { hart::SineWave<T> s (ok); });
    cx.need (! o2.threw, "sine-valid-frequency", hv::cat ("a frequency of ", ok, " was refused: ", o2.error));
    cx.saw ("invalid frequencies");
}

template <typename T> static void silence (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const double rate = hv::genRate (r);
    const size_t channels = hv::genChannels (r), frames = hv::genSize (r, std::max<size_t> (1, 20000 / channels)), block = hv::genSize (r, 4096);
    cx.describe = hv::cat (hv::typeTag<T>(), " Silence rate=", rate, " channels=", channels, " frames=", frames, " block=", block);
    cx.nontrivial (cx.describe);
    hart::Silence<T> s;
    start<T> (s, rate, channels, block);
    const auto a = renderAll<T> (s, channels, hv::genPartition (r, frames, block));
    for (size_t c = 0; c < channels; ++c)
        for (size_t f = 0; f < frames; ++f)
            if (a[c][f] != 0) { cx.viol ("silence", hv::cat ("channel ", c, " frame ", f, " is ", a[c][f])); return; }
    cx.saw ("silences");
}

static double correlation (const std::vector<double>& a, const std::vector<double>& b, size_t lag)
{
    double s = 0;
    for (size_t i = 0; i + lag < a.size(); ++i) s += a[i] * b[i + lag];
    return s * 3.0 / std::sqrt ((double) (a.size() - lag));  // about a standard normal for independent uniforms
}

template <typename T> static void noise (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const double rate = hv::genRate (r);
    const uint32_t seed = r.chance (0.3) ? r.pick<uint32_t> ({ 0, 1, 2, 3, 0x7fffffff, 0x80000000u, 0xffffffffu, 5489 }) : (uint32_t) r.u64();
    const size_t channels = r.chance (0.9) ? (size_t) r.range (1, 6) : hv::genChannels (r);
    const size_t frames = r.chance (0.03) ? (size_t) r.range (50000, 150000) / channels : r.chance (0.3) ? (size_t) r.range (1, 200) : std::max<size_t> (50, (size_t) r.range (500, 4000) / channels);
    const size_t block = hv::genSize (r, 2000);
    cx.describe = hv::cat (hv::typeTag<T>(), " WhiteNoise (", seed, ") rate=", rate, " channels=", channels, " frames=", frames, " block=", block);
    cx.nontrivial (cx.describe);
    auto render = [&] (uint32_t sd, size_t blk)
    {
        hart::WhiteNoise<T> s (sd);
        start<T> (s, rate, channels, blk);
        if (r.chance (0.3)) { renderAll<T> (s, channels, hv::genPartition (r, (size_t) r.range (1, 50), blk)); s.resetWithDSPChain(); }
        return renderAll<T> (s, channels, hv::genPartition (r, frames, blk));
    };
    const auto a = render (seed, block);
    double sum = 0, lowest = 1, highest = -1;
    std::vector<size_t> bins (16, 0), fine (256, 0);
    for (size_t c = 0; c < channels; ++c)
        for (size_t f = 0; f < frames; ++f)
        {
            const double v = (double) a[c][f];
            if (! (v >= -1 && v <= 1)) { cx.viol ("noise-range", hv::cat ("channel ", c, " frame ", f, " is ", v)); return; }
            sum += v;
            ++bins[(size_t) std::min (15.0, std::floor ((v + 1) * 8))];
            ++fine[(size_t) std::min (255.0, std::floor ((v + 1) * 128))];
            lowest = std::min (lowest, v);
            highest = std::max (highest, v);
        }
    cx.need (a == render (seed, hv::genSize (r, 2000)), "noise-reproducible", "the same seed gave other audio");
    const uint32_t other = r.chance (0.5) ? seed + 1 : r.chance (0.5) ? seed ^ (1u << r.range (0, 31)) : (uint32_t) r.u64();
    const auto b = render (other, block);
    if (other != seed && frames * channels > 8)
        cx.need (a != b, "noise-seeds", hv::cat ("seeds ", seed, " and ", other, " gave the same audio"));
    cx.saw ("noises");

    // statistics, with thresholds that sound noise misses less than once in 10^11 times
    const double n = (double) (frames * channels);
    if (n >= 300)
    {
        cx.need (std::abs (sum / n) < 7.5 / std::sqrt (3 * n), "noise-mean", hv::cat ("the mean is ", sum / n));
        double chi = 0;
        for (size_t k : bins) chi += ((double) k - n / 16) * ((double) k - n / 16) / (n / 16);
        cx.need (chi < 95, "noise-uniform", hv::cat ("chi square over 16 bins is ", chi));
        cx.need (highest > 1 - 60 / n && lowest < -1 + 60 / n, "noise-covers", hv::cat (n, " samples reach from ", lowest, " to ", highest));
        if (n >= 20000)
        {
            chi = 0;
            for (size_t k : fine) chi += ((double) k - n / 256) * ((double) k - n / 256) / (n / 256);
            cx.need (chi < 455, "noise-uniform", hv::cat ("chi square over 256 bins is ", chi));
            cx.saw ("long noises");
        }
        cx.saw ("noise statistics");
    }
    if (frames >= 200)
    {
        std::vector<std::vector<double>> d;
        for (auto& c : a) d.emplace_back (c.begin(), c.end());
        for (size_t c = 0; c < std::min<size_t> (channels, 6); ++c)
        {
            for (size_t lag = 1; lag <= 4; ++lag)
                cx.need (std::abs (correlation (d[c], d[c], lag)) < 8, "noise-white", hv::cat ("channel ", c, " correlates with itself at lag ", lag));
            for (size_t e = 0; e < std::min<size_t> (channels, 6); ++e)
                for (size_t lag = 0; lag <= 3; ++lag)
                    if (e != c) cx.need (std::abs (correlation (d[c], d[e], lag)) < 8, "noise-channels", hv::cat ("channels ", c, " and ", e, " correlate at lag ", lag));
            std::vector<double> o (b[c].begin(), b[c].end());
            if (other != seed) cx.need (std::abs (correlation (d[c], o, 0)) < 8, "noise-seeds", hv::cat ("channel ", c, " correlates between seeds ", seed, " and ", other));
            cx.saw ("correlations");
        }
    }
}

template <typename T> static void run (hv::Ctx& cx)
{
    const double d = cx.rng.uni();
    if (d < 0.55) sine<T> (cx);
    else if (d < 0.6) hugePhase<T> (cx);
    else if (d < 0.65) invalidSine<T> (cx);
    else if (d < 0.72) silence<T> (cx);
    else noise<T> (cx);
    if (cx.index % 500 == 0) cx.sample (cx.describe);
}

void hv_case (hv::Ctx& cx)
{
    if (cx.index < 2) { if (cx.index) sine<float> (cx); else sine<double> (cx); return; }
    if (cx.rng.chance (0.5)) run<float> (cx); else run<double> (cx);
}
