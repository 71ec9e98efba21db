// W01: written wav files read by an independent reader and read back as signals.
#include "stock.hpp"
#include "riff.hpp"

using namespace hp;

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const auto format = r.pick ({ hart::WavFormat::pcm16, hart::WavFormat::pcm24, hart::WavFormat::pcm32, hart::WavFormat::float32 });
    const bool isLong = r.chance (0.0015);
    const size_t channels = isLong ? (size_t) r.range (1, 2) : hv::genChannels (r, 128);
    if (isLong) cx.saw ("long files");
    const size_t frames = isLong ? (size_t) r.range (1050000, 2200000) / channels : r.chance (0.02) ? 0 : hv::genSize (r, std::max<size_t> (1, (r.chance (0.03) ? 200000 : 6000) / channels));
    static const std::vector<double> rates { 44100, 48000, 96000, 8000, 1, 192000, 384000, 768000, 11025, 4000000000.0 };
    double rate = r.chance (0.8) ? r.pick (rates) : (double) r.range (1, 400000);
    if (rate > 1e6 && channels * 4 * rate > 4e9) rate = 44100;
    if (r.chance (0.04)) rate += 0.5;
    else if (r.chance (0.03)) rate = r.uni (1, 300000);
    else if (r.chance (0.06) && rate < 1e6) { rate = std::nextafter (rate, r.chance (0.7) ? 0.0 : 1e9); cx.saw ("rates beside whole ones"); }  // what 1.001_kHz is
    const int content = (int) r.range (0, 5);
    Planes<T> p (channels, std::vector<T> (frames));
    bool special = false;
    const double full = format == hart::WavFormat::pcm16 ? 32768.0 : format == hart::WavFormat::pcm24 ? 8388608.0 : 2147483648.0;
    for (auto& c : p)
        for (auto& v : c)
        {
            v = content == 0 ? (T) r.uni (-1, 1) : content == 1 ? (T) r.uni (-3, 3) : content == 2 ? (T) r.pick ({ -1.0, 1.0, 0.0, -0.5, 0.5 })
              : content == 3 ? (T) ((std::round (r.uni (-full, full)) + r.pick ({ -0.5, 0.0, 0.5, 0.49, 0.51 })) / full)
              : content == 4 ? (T) (r.uni (-1, 1) * std::pow (10.0, r.uni (-12, 0))) : (T) (r.pick ({ -1.0, 1.0 }) * (1 + r.uni (-2, 2) / full));
            if (r.chance (0.002))
            {
                v = r.pick ({ std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), (T) 1e30, (T) -1e30, std::numeric_limits<T>::denorm_min(), (T) -0.0, std::numeric_limits<T>::quiet_NaN(), (T) 65536, (T) -65536, (T) 2 });
                special = true;
            }
        }
    const int fmt = format == hart::WavFormat::pcm16 ? 16 : format == hart::WavFormat::pcm24 ? 24 : format == hart::WavFormat::pcm32 ? 32 : 3;
    cx.describe = hv::cat (hv::typeTag<T>(), " format ", fmt, " ", channels, " x ", frames, " at ", rate, " Hz, content ", content);
    cx.nontrivial (cx.describe + hv::cat (cx.index));
    if (cx.index % 1500 == 0) cx.sample (cx.describe);
    const std::string path = cx.scratch + "/w01.wav";
    ::unlink (path.c_str());
    if (r.chance (0.3)) { hv::writeFile (path, std::string ((size_t) r.range (1, 60000), 'x')); cx.saw ("overwritten files"); }
    const auto buffer = bufferOf (p);
    if (r.chance (0.02))
    {
        // a rate that the header can't hold
        const double bad = r.pick<double> ({ 4294967296.0, 1e10, 1e300, hart::inf, -44100.0, -1e300, std::nan ("") });
        const auto o = observe ([&] { hart::WavWriter<T>::writeBuffer (buffer, path, bad, format); });
        cx.need (o.threw, "rate-not-refused", hv::cat ("a file at ", bad, " Hz was written"));
        cx.need (! o.threw || ! o.errorType.empty(), "rate-refused-otherwise", "refused by " + o.error);
        cx.saw ("refused rates");
        return;
    }
    if (fmt == 24 && r.chance (0.3)) hart::WavWriter<T>::writeBuffer (buffer, path, rate); else hart::WavWriter<T>::writeBuffer (buffer, path, rate, format);
    cx.need (diff (planesOf (buffer), p, 0).empty(), "audio-changed", "writing changed the audio");
    const Riff w = readRiff (hv::readFile (path));
    const auto e = compareRiff (w, p, frames, rate, format);
    if (! e.empty()) { cx.viol (hv::cat ("file-", fmt), e); return; }
    cx.saw ("files");
    cx.saw ("samples", channels * frames);
    if (special) cx.saw ("files with special values");

    if (std::abs (rate - std::round (rate)) > 1e-9 || rate > 384000) return;  // more than dr_wav reads
    // read back as a signal
    hart::WavFile<T> s (path);
    cx.need (s.supportsSampleRate (rate), "read-back-rate", hv::cat ("the written file can't be played at ", rate, " Hz"));
    cx.need (s.supportsNumChannels (channels), "read-back-channels", "the written file can't be played with all its channels");
    const size_t block = std::max<size_t> (1, hv::genSize (r, 4096));
    start (s, rate, channels, block);
    const auto back = renderAll<T> (s, channels, hv::hostPartition (frames + 3, block));
    const double step = fmt == 3 ? 0.0 : 2.01 / full;
    for (size_t c = 0; c < channels; ++c)
        for (size_t f = 0; f < frames + 3; ++f)
        {
            double v = f < frames ? (double) (fmt == 3 ? (T) (float) p[c][f] : p[c][f]) : 0.0;
            if (std::isnan (v)) continue;
            if (fmt != 3) v = std::min (1.0, std::max (-1.0, v));
            const double g = (double) back[c][f];
            if (! (g == v || std::abs (g - v) <= step + (fmt == 3 ? 0.0 : 1e-7)) && ! (fmt == 3 && std::abs ((double) p[c][f]) > std::numeric_limits<float>::max()))
            {
                cx.viol (hv::cat ("read-back-", fmt), hv::cat ("channel ", c, " frame ", f, ": ", v, " is read back as ", g));
                return;
            }
        }
    cx.saw ("read back");
}

template <typename T> static void refused (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const std::string dir = cx.scratch + "/w01dir", file = cx.scratch + "/w01file";
    ::mkdir (dir.c_str(), 0700);
    hv::writeFile (file, "untouched");
    const std::string path = r.pick<std::string> ({ dir + "/missing/x.wav", dir, dir + "/", file + "/x.wav", "", cx.scratch + "/" + std::string (300, 'n') + ".wav", dir + "/missing/../x.wav" });
    const hart::AudioBuffer<T> b ((size_t) r.range (1, 3), (size_t) r.range (1, 100));
    const auto format = r.pick ({ hart::WavFormat::pcm16, hart::WavFormat::pcm24, hart::WavFormat::pcm32, hart::WavFormat::float32 });
    cx.describe = "refused path " + path;
    cx.nontrivial (hv::cat ("refused ", cx.index));
    const auto o = observe ([&] { hart::WavWriter<T>::writeBuffer (b, path, 44100, format); });
    cx.need (o.threw && o.errorType == "IO", "uncreatable", o.threw ? "reported as " + o.errorType + " error: " + o.error : "no error was reported for " + path);
    cx.need (hv::readFile (file) == "untouched", "uncreatable-side-effect", "another file was changed");
    cx.saw ("refusals");
}

void hv_case (hv::Ctx& cx)
{
    const bool f = cx.rng.chance (0.5);
    if (cx.rng.chance (0.04)) { if (f) refused<float> (cx); else refused<double> (cx); }
    else { if (f) run<float> (cx); else run<double> (cx); }
}
