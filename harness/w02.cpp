// W02: plots against the audio of the run that saved them.
#include "stock.hpp"
#include "svg.hpp"

using namespace hp;

template <typename T> static Planes<T> content (hv::Rng& r, size_t channels, size_t frames, double amp, bool big)
{
    Planes<T> p (channels, std::vector<T> (frames));
    const int kind = big && r.chance (0.5) ? r.pick<int> ({ 1, 6 }) : (int) r.range (0, 7);
    for (size_t c = 0; c < channels; ++c)
    {
        const double w = r.uni (0.001, 0.3), k = r.uni (-1, 1);
        const int mine = r.chance (0.25) ? (int) r.range (0, 7) : kind;
        for (size_t f = 0; f < frames; ++f)
        {
            double v = 0;
            switch (mine)
            {
                case 0: v = std::sin (w * (double) f); break;
                case 1: v = r.uni (-1, 1); break;
                case 2: v = k; break;
                case 3: v = k * (double) f / (double) frames; break;
                case 4: v = (f / 7) % 2 ? k : -k; break;
                case 5: v = f == frames / 2 ? 1 : 0; break;
                case 6: v = f % 9 == 4 ? 1 : f % 9 == 5 ? k : -1; break;  // peaks that fall back partly
                default: v = 0;
            }
            p[c][f] = (T) (v * amp);
        }
    }
    return p;
}

struct Foreign : std::numpunct<char>
{
    bool groups;
    explicit Foreign (bool g) : groups (g) {}
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return groups ? "\3" : ""; }
};

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const double rate = hv::genRate (r);
    const bool big = r.chance (0.012), dense = big && r.chance (0.5);
    const size_t in = dense ? 1 : r.chance (0.8) ? (size_t) r.range (1, 8) : hv::genChannels (r, 40), out = dense ? 1 : r.chance (0.8) ? (size_t) r.range (1, 8) : hv::genChannels (r, 40);
    const size_t frames = big ? (size_t) r.range (dense ? 100000 : 8000, (dense ? 400000 : 150000) / (int64_t) std::max (in, out)) : hv::genSize (r, std::max<size_t> (40, std::min<size_t> (4000, 12000 / std::max (in, out))));
    const double seconds = (double) frames / rate;
    if (big) cx.saw ("long plots");
    if (seconds > 400) return;  // too many ticks
    const size_t block = frames > 30000 ? (size_t) r.range (500, 9000) : hv::genSize (r, 2048);
    const double amp = std::pow (10.0, r.uni (-5, 4));
    const auto input = content<T> (r, in, frames, r.chance (0.7) ? 1.0 : amp, big), output = content<T> (r, out, frames, r.chance (0.7) ? 1.0 : amp, big);
    cx.describe = hv::cat (hv::typeTag<T>(), " ", rate, " Hz ", in, " -> ", out, " channels, ", frames, " frames in blocks of ", block);
    cx.nontrivial (cx.describe + hv::cat (cx.index));
    if (cx.index % 300 == 0) cx.sample (cx.describe);
    const std::string path = cx.scratch + "/w02.svg";
    ::unlink (path.c_str());
    if (r.chance (0.2)) hv::writeFile (path, std::string (200000, 'x'));
    RecordingDSP<T> d;
    d.keepAudio = false;
    d.transform = [&] (const hart::AudioBuffer<T>&, hart::AudioBuffer<T>& o, size_t pos)
    {
        for (size_t c = 0; c < out; ++c) for (size_t f = 0; f < o.getNumFrames(); ++f) o[c][f] = output[c][pos + f];
    };
    // a program can have any locale, and an effect or a library under test may set one
    const bool foreign = r.chance (0.15);
    struct Restore { ~Restore() { std::locale::global (std::locale::classic()); } } restore;
    if (foreign) std::locale::global (std::locale (std::locale::classic(), new Foreign (r.chance (0.5))));
    hart::AudioTestBuilder<T> (d).withSampleRate (rate).withDuration (seconds).withBlockSize (block).withInputChannels (in).withOutputChannels (out)
        .withInputSignal (DataSignal<T> (input)).savePlotTo (path).process();
    std::locale::global (std::locale::classic());
    cx.saw ("plots");
    if (foreign) { cx.saw ("foreign locales"); cx.describe += " foreign locale"; }
    const auto v = comparePlot (hv::readFile (path), asDoubles (input), asDoubles (output), rate);
    if (! v.key.empty()) { cx.viol (v.key, v.error); return; }
    cx.saw ("lines", v.lines);
    cx.saw ("time marks", v.marks);
    cx.saw ("frames", frames * (in + out));
    if (frames == 1) cx.saw ("single frames");
}

void hv_case (hv::Ctx& cx)
{
    if (cx.rng.chance (0.5)) run<float> (cx); else run<double> (cx);
}
