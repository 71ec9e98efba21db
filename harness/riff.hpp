// An independent, strict reader of RIFF/WAVE files.
#pragma once
#include "hv.hpp"

namespace hp
{

struct Riff
{
    std::string error;
    unsigned tag = 0, channels = 0, rate = 0, bits = 0;
    size_t frames = 0;
    std::string data;  // the content of the data chunk

    /// the integer or float sample at the given position
    double sample (size_t frame, size_t channel) const
    {
        const unsigned bytes = bits / 8;
        const unsigned char* p = (const unsigned char*) data.data() + (frame * channels + channel) * bytes;
        if (tag == 3)
        {
            if (bits == 32) { float f; std::memcpy (&f, p, 4); return f; }
            double d; std::memcpy (&d, p, 8); return d;
        }
        int64_t v = 0;
        for (unsigned i = 0; i < bytes; ++i) v |= (int64_t) p[i] << (8 * i);
        if (bits == 8) return (double) (v - 128);
        if (v & (int64_t) 1 << (bits - 1)) v -= (int64_t) 1 << bits;
        return (double) v;
    }
};

inline Riff readRiff (const std::string& f)
{
    Riff r;
    auto u16 = [&] (size_t at) { return (unsigned) ((unsigned char) f[at] | (unsigned char) f[at + 1] << 8); };
    auto u32 = [&] (size_t at) { return (uint32_t) u16 (at) | (uint32_t) u16 (at + 2) << 16; };
    auto fail = [&] (const std::string& e) { r.error = e; return r; };
    if (f.size() < 12) return fail (hv::cat ("only ", f.size(), " bytes"));
    if (f.compare (0, 4, "RIFF") != 0 || f.compare (8, 4, "WAVE") != 0) return fail ("not a RIFF/WAVE file");
    if ((size_t) u32 (4) + 8 != f.size()) return fail (hv::cat ("the RIFF chunk announces ", u32 (4), " bytes in a file of ", f.size()));
    bool haveFmt = false, haveData = false;
    size_t align = 0;
    for (size_t at = 12; at < f.size();)
    {
        if (at + 8 > f.size()) return fail (hv::cat ("garbage at byte ", at));
        const std::string id = f.substr (at, 4);
        const size_t size = u32 (at + 4);
        at += 8;
        if (size > f.size() - at) return fail (hv::cat ("chunk '", id, "' announces ", size, " bytes, there are ", f.size() - at));
        if (id == "fmt ")
        {
            if (haveFmt || size < 16) return fail ("bad fmt chunk");
            haveFmt = true;
            r.tag = u16 (at);
            r.channels = u16 (at + 2);
            r.rate = u32 (at + 4);
            align = u16 (at + 12);
            r.bits = u16 (at + 14);
            if (r.tag == 0xFFFE) { if (size < 40) return fail ("bad extensible fmt chunk"); r.tag = u16 (at + 24); }
            if (r.tag != 1 && r.tag != 3) return fail (hv::cat ("format tag ", r.tag));
            if (r.bits % 8 != 0 || r.bits == 0) return fail (hv::cat (r.bits, " bits"));
            if (align != r.channels * r.bits / 8) return fail (hv::cat ("block align ", align, " for ", r.channels, " channels of ", r.bits, " bits"));
            if (u32 (at + 8) != (uint32_t) (r.rate * align)) return fail (hv::cat ("byte rate ", u32 (at + 8), " for ", r.rate, " Hz, block align ", align));
        }
        else if (id == "data")
        {
            if (! haveFmt || haveData) return fail ("misplaced data chunk");
            haveData = true;
            r.data = f.substr (at, size);
        }
        at += size;
        if (size % 2 && at < f.size()) { if (f[at] != 0) return fail ("padding is not zero"); ++at; }
        else if (size % 2) return fail ("no padding after a chunk of odd size");
    }
    if (! haveFmt || ! haveData) return fail ("no fmt or no data chunk");
    if (align == 0 ? ! r.data.empty() : r.data.size() % align != 0) return fail (hv::cat (r.data.size(), " bytes of data for frames of ", align));
    r.frames = align == 0 ? 0 : r.data.size() / align;
    return r;
}

/// compares the file with the audio it is meant to hold; an empty string if it matches
template <typename T>
std::string compareRiff (const Riff& w, const std::vector<std::vector<T>>& audio, size_t frames, double rate, hart::WavFormat format)
{
    if (! w.error.empty()) return "not a valid wav file: " + w.error;
    const unsigned bits = format == hart::WavFormat::pcm16 ? 16 : format == hart::WavFormat::pcm24 ? 24 : 32;
    const unsigned tag = format == hart::WavFormat::float32 ? 3 : 1;
    if (w.tag != tag || w.bits != bits) return hv::cat ("format tag ", w.tag, " with ", w.bits, " bits instead of ", tag, " with ", bits);
    if (w.channels != audio.size()) return hv::cat (w.channels, " channels instead of ", audio.size());
    if (w.frames != frames) return hv::cat (w.frames, " frames instead of ", frames);
    if (std::abs ((double) w.rate - rate) > 0.5 + 1e-9)  // the nearest whole rate
        return hv::cat (w.rate, " Hz instead of ", rate);
    const double full = std::pow (2.0, bits - 1);
    for (size_t c = 0; c < audio.size(); ++c)
        for (size_t f = 0; f < frames; ++f)
        {
            const double v = (double) audio[c][f], q = w.sample (f, c);
            bool ok;
            if (tag == 3)
            {
                const double limit = std::numeric_limits<float>::max();
                ok = std::isnan (v) ? std::isnan (q) : std::abs (v) > limit && std::isfinite (v) ? std::abs (q) >= limit && (q > 0) == (v > 0) : q == (double) (float) v;
            }
            else if (std::isnan (v)) ok = true;
            else if (v >= 1) ok = q >= full - 2;
            else if (v <= -1) ok = q <= -full + 2;
            else ok = std::abs (q - v * full) <= 1.0001 || std::abs (q - v * (full - 1)) <= 1.0001;
            if (! ok) return hv::cat ("channel ", c, " frame ", f, ": ", v, " was written as ", q, tag == 3 ? "" : " of ", tag == 3 ? "" : hv::cat (full));
        }
    return "";
}

}  // namespace hp
