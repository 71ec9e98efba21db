// Specifications of stock signals and effects from which real objects are made, plus helpers to
// render them the way a host does.
#pragma once
#include "probes.hpp"

namespace hp
{

/// hands out a given value per frame, whatever the rate; the last value for ever after
class TableEnvelope : public hart::Envelope
{
public:
    std::shared_ptr<const std::vector<double>> table;
    size_t pos = 0;
    explicit TableEnvelope (std::vector<double> t): table (std::make_shared<const std::vector<double>> (std::move (t))) {}
    using hart::Envelope::renderNextBlock;
    void renderNextBlock (size_t n, std::vector<double>& v) override
    {
        if (v.size() != n) v.resize (n);
        for (size_t i = 0; i < n; ++i, ++pos) v[i] = pos < table->size() ? (*table)[pos] : table->back();
    }
    void prepare (double, size_t) override {}
    void reset() override { pos = 0; }
    std::unique_ptr<hart::Envelope> copy() const override { return std::unique_ptr<hart::Envelope> (new TableEnvelope (*this)); }
    Counted counted;
};

/// y = x / 2 + value + something that depends on the position since the last reset; neither it nor
/// the gains and clippers commute
template <typename T> std::unique_ptr<RecordingDSP<T>> positionProbe (double value)
{
    auto d = std::unique_ptr<RecordingDSP<T>> (new RecordingDSP<T>());
    d->keepAudio = false;
    d->transform = [value] (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, size_t pos)
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
                out[c][f] = (T) (in[c % in.getNumChannels()][f] * (T) 0.5 + (T) (value * 0.01 + 0.001 * (double) ((pos + f) % 97)));
    };
    return d;
}

struct FxSpec
{
    int kind = 0;  // 0 GainDb, 1 GainLinear, 2 HardClip, 3 position probe
    double value = 0;
    bool hasEnv = false;
    EnvSpec env;

    template <typename T> std::unique_ptr<hart::DSP<T>> make() const
    {
        std::unique_ptr<hart::DSP<T>> d;
        if (kind == 0) d.reset (new hart::GainDb<T> (value));
        else if (kind == 1) d.reset (new hart::GainLinear<T> (value));
        else if (kind == 2) d.reset (new hart::HardClip<T> (value));
        else d = positionProbe<T> (value);
        if (hasEnv) d->withEnvelope (0, env.make());
        return d;
    }
    std::string str() const
    {
        return hv::cat (kind == 0 ? "GainDb " : kind == 1 ? "GainLinear " : kind == 2 ? "HardClip " : "Probe ", value, hasEnv ? " " + env.str() : "");
    }
};

inline FxSpec genFx (hv::Rng& r, double seconds, bool automation = true, bool probes = false)
{
    FxSpec f;
    f.kind = (int) r.range (0, probes ? 3 : 2);
    f.value = f.kind == 1 ? r.uni (-2, 2) : r.uni (-30, 6);
    if (automation && f.kind < 2 && r.chance (0.4))
    {
        f.hasEnv = true;
        f.env = f.kind == 0 ? genEnv (r, seconds, false, -40, 6) : genEnv (r, seconds, false, -1, 2);
    }
    return f;
}

struct SigSpec
{
    int kind = 0;  // 0 sine, 1 silence, 2 noise, 3 sweep, 4 wav file, 5 index
    double freq = 1000, phase = 0, dur = 1, endFreq = 2000;
    bool log = true, loop = false, seeded = true;  // not seeded: the seed of the command line
    uint32_t seed = 0;
    std::string wav;
    std::vector<FxSpec> chain;

    template <typename T> std::unique_ptr<hart::Signal<T>> makeBare() const
    {
        using S = std::unique_ptr<hart::Signal<T>>;
        switch (kind)
        {
            case 0: return S (new hart::SineWave<T> (freq, phase));
            case 1: return S (new hart::Silence<T>());
            case 2: return seeded ? S (new hart::WhiteNoise<T> (seed)) : S (new hart::WhiteNoise<T>());
            case 3: return S (new hart::SineSweep<T> (dur, freq, endFreq,
                              log ? hart::SineSweep<T>::SweepType::log : hart::SineSweep<T>::SweepType::linear,
                              loop ? hart::SineSweep<T>::Loop::yes : hart::SineSweep<T>::Loop::no, phase));
            case 4: return S (new hart::WavFile<T> (wav, loop ? hart::WavFile<T>::Loop::yes : hart::WavFile<T>::Loop::no));
            default: return S (new IndexSignal<T> (newLog<T>(), seed));
        }
    }
    template <typename T> std::unique_ptr<hart::Signal<T>> make() const
    {
        auto s = makeBare<T>();
        for (auto& f : chain) s->followedBy (f.make<T>());
        return s;
    }
    std::string str() const
    {
        std::string s;
        switch (kind)
        {
            case 0: s = hv::cat ("sine ", freq, " ", phase); break;
            case 1: s = "silence"; break;
            case 2: s = seeded ? hv::cat ("noise ", seed) : std::string ("noise"); break;
            case 3: s = hv::cat ("sweep ", dur, " ", freq, "..", endFreq, log ? " log" : " lin", loop ? " loop" : "", " ", phase); break;
            case 4: s = hv::cat ("wav", loop ? " loop" : ""); break;
            default: s = hv::cat ("index ", seed);
        }
        for (auto& f : chain) s += " >> " + f.str();
        return s;
    }
};

// ---- an independent wav writer ------------------------------------------------------------

inline void put16 (std::string& s, unsigned v) { s += (char) (v & 0xff); s += (char) (v >> 8 & 0xff); }
inline void put32 (std::string& s, uint32_t v) { put16 (s, v & 0xffff); put16 (s, v >> 16); }

/// bytes of a canonical wav file; `data` is what goes into the data chunk
inline std::string wavBytes (unsigned tag, unsigned channels, unsigned rate, unsigned bits, const std::string& data,
                             bool extensible = false, const std::string& before = "", const std::string& after = "")
{
    std::string fmt;
    const unsigned align = channels * ((bits + 7) / 8);
    put16 (fmt, extensible ? 0xFFFE : tag);
    put16 (fmt, channels);
    put32 (fmt, rate);
    put32 (fmt, rate * align);
    put16 (fmt, align);
    put16 (fmt, bits);
    if (extensible)
    {
        put16 (fmt, 22);
        put16 (fmt, bits);
        put32 (fmt, 0);
        put16 (fmt, tag);
        fmt += std::string ("\x00\x00\x00\x00\x10\x00\x80\x00\x00\xaa\x00\x38\x9b\x71", 14);
    }
    else if (tag != 1) put16 (fmt, 0);
    std::string body = "WAVE";
    body += "fmt ";
    put32 (body, (uint32_t) fmt.size());
    body += fmt;
    body += before;
    if (tag != 1 && ! extensible)
    {
        body += "fact";
        put32 (body, 4);
        put32 (body, (uint32_t) (align ? data.size() / align : 0));
    }
    body += "data";
    put32 (body, (uint32_t) data.size());
    body += data;
    if (data.size() % 2) body += '\0';
    body += after;
    std::string f = "RIFF";
    put32 (f, (uint32_t) body.size());
    return f + body;
}

/// writes a float wav with seeded content; returns the frames
inline Planes<float> makeFloatWav (hv::Rng& r, const std::string& path, unsigned channels, size_t frames, unsigned rate)
{
    Planes<float> p (channels, std::vector<float> (frames));
    std::string data;
    for (size_t f = 0; f < frames; ++f)
        for (unsigned c = 0; c < channels; ++c)
        {
            p[c][f] = (float) r.uni (-1, 1);
            uint32_t b;
            std::memcpy (&b, &p[c][f], 4);
            put32 (data, b);
        }
    hv::writeFile (path, wavBytes (3, channels, rate, 32, data));
    return p;
}

/// any stock signal; wav files are written to `scratch` for the given rate with enough channels
inline SigSpec genSig (hv::Rng& r, double rate, size_t channels, size_t frames, const std::string& scratch, int maxChain = 3, bool automation = true, bool probes = false)
{
    SigSpec s;
    s.kind = (int) r.range (0, scratch.empty() || rate != std::floor (rate) || rate > 384000 || channels > 32 ? 3 : 4);
    const double seconds = (double) frames / rate;
    s.freq = std::exp (r.uni (std::log (rate * 1e-4), std::log (rate * 0.6)));
    s.endFreq = r.chance (0.15) ? s.freq : std::exp (r.uni (std::log (rate * 1e-4), std::log (rate * 0.6)));
    s.phase = r.chance (0.4) ? 0.0 : r.uni (-10, 10);
    s.dur = r.chance (0.08) ? 0.0 : seconds * r.uni (0.02, 1.6);
    s.log = r.chance (0.5);
    s.loop = r.chance (0.5);
    s.seed = (uint32_t) r.u64();
    s.seeded = r.chance (0.7);
    if (s.kind == 4)
    {
        s.wav = scratch + "/gen.wav";
        makeFloatWav (r, s.wav, (unsigned) (channels + (size_t) r.range (0, 2)), std::max<size_t> (1, (size_t) ((double) std::min<size_t> (frames, 20000) * r.uni (0.1, 1.5))), (unsigned) rate);
    }
    const int n = (int) r.range (0, maxChain);
    for (int i = 0; i < n; ++i) s.chain.push_back (genFx (r, seconds, automation, probes));
    return s;
}

// ---- rendering like a host ----------------------------------------------------------------

template <typename T> T sentinel() { return (T) 12345.75; }

/// renders the next block; all samples are preset to a sentinel
template <typename T> hart::AudioBuffer<T> renderBlock (hart::Signal<T>& s, size_t channels, size_t frames, bool withChain = true)
{
    hart::AudioBuffer<T> b (channels, frames);
    for (size_t c = 0; c < channels; ++c) for (size_t f = 0; f < frames; ++f) b[c][f] = sentinel<T>();
    if (withChain) s.renderNextBlockWithDSPChain (b); else s.renderNextBlock (b);
    return b;
}

template <typename T> Planes<T> renderAll (hart::Signal<T>& s, size_t channels, const std::vector<size_t>& parts)
{
    size_t total = 0, at = 0;
    for (size_t n : parts) total += n;
    Planes<T> p (channels, std::vector<T> (total));
    for (size_t n : parts)
    {
        auto b = renderBlock (s, channels, n);
        for (size_t c = 0; c < channels; ++c) std::copy (b[c], b[c] + n, p[c].begin() + (long) at);
        at += n;
    }
    return p;
}

template <typename T> void start (hart::Signal<T>& s, double rate, size_t channels, size_t block)
{
    s.resetWithDSPChain();
    s.prepareWithDSPChain (rate, channels, block);
}

/// the whole of a signal as a host would render it
template <typename T> Planes<T> renderFresh (const SigSpec& spec, double rate, size_t channels, size_t frames, size_t block)
{
    auto s = spec.make<T>();
    start (*s, rate, channels, block);
    return renderAll (*s, channels, hv::hostPartition (frames, block));
}

template <typename T> Planes<T> randomPlanes (hv::Rng& r, size_t channels, size_t frames, double amp = 1.0)
{
    Planes<T> p (channels, std::vector<T> (frames));
    for (auto& c : p) for (auto& v : c) v = (T) r.uni (-amp, amp);
    return p;
}

}  // namespace hp
