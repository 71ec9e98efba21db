// S06: wav playback reproduces the file's frames and levels. The files are written by an
// independent writer in every format the library reads.
#include "stock.hpp"
using namespace hp;

struct Format { const char* name; unsigned tag, bits; double tol; };
static const Format FORMATS[] = {
    { "u8", 1, 8, 0.0082 }, { "s16", 1, 16, 6.2e-5 }, { "s24", 1, 24, 3e-7 }, { "s32", 1, 32, 1.3e-7 },
    { "f32", 3, 32, 0 }, { "f64", 3, 64, 1.2e-7 }, { "alaw", 6, 8, 1e-4 }, { "ulaw", 7, 8, 1e-4 },
    { "s48", 1, 48, 1.3e-7 }, { "s64", 1, 64, 1.3e-7 }, { "ms-adpcm", 2, 4, 6.2e-5 }, { "ima-adpcm", 0x11, 4, 6.2e-5 },
    { "odd", 1, 0, 6.2e-5 }  // samples of 9 to 31 bits, in the upper bits of whole bytes
};
enum Container { riff, rifx, rf64, w64, aiff, aifc };
static const char* const CONTAINERS[] = { "RIFF", "RIFX", "RF64", "W64", "AIFF", "AIFC" };

static double alaw (uint8_t v)
{
    v ^= 0x55;
    const int exp = (v >> 4) & 7, man = v & 15;
    int x = exp == 0 ? (man << 4) + 8 : ((man << 4) + 0x108) << (exp - 1);
    return (v & 0x80 ? x : -x) / 32768.0;
}

static double ulaw (uint8_t v)
{
    v = (uint8_t) ~v;
    const int exp = (v >> 4) & 7, man = v & 15;
    const int x = (((man << 3) + 0x84) << exp) - 0x84;
    return (v & 0x80 ? -x : x) / 32768.0;
}

struct File
{
    std::string bytes;
    std::vector<std::vector<double>> want;
    int format = 0;
    Container container = riff;
    std::string str;
};

static void be16 (std::string& s, unsigned v) { s += (char) (v >> 8); s += (char) v; }
static void be32 (std::string& s, uint32_t v) { be16 (s, v >> 16); be16 (s, v & 0xffff); }
static void put64 (std::string& s, uint64_t v) { put32 (s, (uint32_t) v); put32 (s, (uint32_t) (v >> 32)); }

static int clip16 (int v) { return v < -32768 ? -32768 : v > 32767 ? 32767 : v; }

/// blocks of random ADPCM codes, and what they mean according to the published decoders
static void genAdpcm (hv::Rng& r, File& f, unsigned channels, size_t blocks, unsigned rate)
{
    const bool ms = f.format == 10;
    const unsigned align = (unsigned) (ms ? 7 * channels + r.range (0, 60) * channels : 4 * channels * r.range (1, 16));
    const unsigned spb = ms ? (align - 7 * channels) * 2 / channels + 2 : (align - 4 * channels) * 2 / channels + 1;
    f.want.assign (channels, {});
    std::string data;
    static const int C1[] = { 256, 512, 0, 192, 240, 460, 392 }, C2[] = { 0, -256, 0, 64, 0, -208, -232 };
    static const int ADAPT[] = { 230, 230, 230, 230, 307, 409, 512, 614, 768, 614, 512, 409, 307, 230, 230, 230 };
    static const int INDEX[] = { -1, -1, -1, -1, 2, 4, 6, 8 };
    std::vector<int> steps;  // the published table grows by about 10% per step
    for (int v : { 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 19, 21, 23, 25, 28, 31, 34, 37, 41, 45, 50, 55, 60, 66, 73, 80, 88, 97, 107, 118, 130, 143, 157, 173, 190, 209, 230, 253, 279, 307, 337, 371, 408, 449, 494, 544, 598, 658, 724, 796, 876, 963, 1060, 1166, 1282, 1411, 1552, 1707, 1878, 2066, 2272, 2499, 2749, 3024, 3327, 3660, 4026, 4428, 4871, 5358, 5894, 6484, 7132, 7845, 8630, 9493, 10442, 11487, 12635, 13899, 15289, 16818, 18500, 20350, 22385, 24623, 27086, 29794, 32767 })
        steps.push_back (v);
    for (size_t b = 0; b < blocks; ++b)
    {
        std::vector<int> pred (channels), delta (channels), s1 (channels), s2 (channels), step (channels);
        auto push = [&] (unsigned c, int v) { f.want[c].push_back (v / 32768.0); };
        const int loud = (int) r.range (4, 15);
        auto level = [&] { return (int) r.range (-(1 << loud), (1 << loud) - 1); };
        if (ms)
        {
            for (unsigned c = 0; c < channels; ++c) { pred[c] = (int) r.range (0, 6); data += (char) pred[c]; }
            for (unsigned c = 0; c < channels; ++c) { delta[c] = (int) r.range (16, 2000); put16 (data, (unsigned) delta[c]); }
            for (unsigned c = 0; c < channels; ++c) { s1[c] = level(); put16 (data, (unsigned) s1[c] & 0xffff); }
            for (unsigned c = 0; c < channels; ++c) { s2[c] = level(); put16 (data, (unsigned) s2[c] & 0xffff); push (c, s2[c]); push (c, s1[c]); }
            unsigned at = 0;
            for (unsigned i = 7 * channels; i < align; ++i)
            {
                unsigned byte = (unsigned) r.range (0, 255);
                for (unsigned c = 0; c < channels; ++c) if (delta[c] > 20000) byte = r.pick<unsigned> ({ 0x00, 0x11, 0x2e, 0xff });  // steps no encoder would take
                data += (char) byte;
                for (unsigned code : { byte >> 4, byte & 15 })
                {
                    const unsigned c = at++ % channels;
                    const int v = clip16 (((s1[c] * C1[pred[c]] + s2[c] * C2[pred[c]]) >> 8) + (code < 8 ? (int) code : (int) code - 16) * delta[c]);
                    delta[c] = std::max (16, (ADAPT[code] * delta[c]) >> 8);
                    s2[c] = s1[c];
                    s1[c] = v;
                    push (c, v);
                }
            }
        }
        else
        {
            for (unsigned c = 0; c < channels; ++c)
            {
                s1[c] = level();
                step[c] = (int) r.range (0, 88);
                put16 (data, (unsigned) s1[c] & 0xffff);
                data += (char) step[c];
                data += (char) 0;
                push (c, s1[c]);
            }
            for (unsigned i = 4 * channels; i < align; i += 4 * channels)
                for (unsigned c = 0; c < channels; ++c)
                    for (int k = 0; k < 4; ++k)
                    {
                        const unsigned byte = (unsigned) r.range (0, 255);
                        data += (char) byte;
                        for (unsigned code : { byte & 15, byte >> 4 })
                        {
                            const int s = steps[(size_t) step[c]];
                            int d = s >> 3;
                            if (code & 1) d += s >> 2;
                            if (code & 2) d += s >> 1;
                            if (code & 4) d += s;
                            s1[c] = clip16 (code & 8 ? s1[c] - d : s1[c] + d);
                            step[c] = std::min (88, std::max (0, step[c] + INDEX[code & 7]));
                            push (c, s1[c]);
                        }
                    }
        }
    }
    std::string fmt;
    put16 (fmt, ms ? 2 : 0x11); put16 (fmt, channels); put32 (fmt, rate); put32 (fmt, (uint32_t) ((uint64_t) rate * align / spb)); put16 (fmt, align); put16 (fmt, 4);
    if (ms)
    {
        put16 (fmt, 32); put16 (fmt, spb); put16 (fmt, 7);
        for (int i = 0; i < 7; ++i) { put16 (fmt, (unsigned) C1[i] & 0xffff); put16 (fmt, (unsigned) C2[i] & 0xffff); }
    }
    else { put16 (fmt, 2); put16 (fmt, spb); }
    std::string body = "WAVEfmt ";
    put32 (body, (uint32_t) fmt.size());
    body += fmt;
    body += "fact"; put32 (body, 4); put32 (body, (uint32_t) f.want[0].size());
    body += "data"; put32 (body, (uint32_t) data.size());
    body += data;
    if (data.size() % 2) body += '\0';
    f.bytes = "RIFF";
    put32 (f.bytes, (uint32_t) body.size());
    f.bytes += body;
    f.str = hv::cat (FORMATS[f.format].name, " channels=", channels, " blocks=", blocks, " of ", align, " bytes, frames=", f.want[0].size(), " rate=", rate);
}

static File genFile (hv::Rng& r, unsigned& channels, size_t& frames, unsigned rate)
{
    File f;
    f.format = (int) r.range (0, 12);
    if (f.format == 10 || f.format == 11)
    {
        channels = (unsigned) r.range (1, 2);
        genAdpcm (r, f, channels, frames == 0 ? 0 : 1 + frames / 60, rate);
        frames = f.want[0].size();
        return f;
    }
    Format F = FORMATS[f.format];
    const bool odd = f.format == 12;
    if (odd) F.bits = (unsigned) (r.range (1, 3) * 8 + r.range (1, 7));
    const unsigned bytes = (F.bits + 7) / 8;
    f.container = r.chance (0.5) ? riff : (Container) r.range (0, 5);
    if (f.container == aiff && F.tag != 1) f.container = aifc;
    if (f.container >= aiff && f.format >= 8 && ! odd) f.container = riff;
    const bool isAiff = f.container >= aiff, sowt = f.container == aifc && F.tag == 1 && F.bits > 8 && ! odd && r.chance (0.4), raw = f.container == aifc && f.format == 0 && r.chance (0.3);
    const bool big = f.container == rifx || (isAiff && ! sowt);
    f.want.assign (channels, std::vector<double> (frames));
    std::string data;
    for (size_t k = 0; k < frames; ++k)
        for (unsigned c = 0; c < channels; ++c)
        {
            double& w = f.want[c][k];
            auto whole = [&] (int64_t top) { return r.chance (0.06) ? r.pick<int64_t> ({ -top - 1, -top, top, 0, 1, -1 }) : r.range (-top - 1, top); };
            uint64_t bits = 0;
            switch (f.format)
            {
                case 0:
                {
                    const int v = (int) r.range (0, 255);
                    bits = (uint64_t) (isAiff && ! raw ? v ^ 0x80 : v);  // AIFF has signed bytes
                    w = (v - 127.5) / 127.5;
                    break;
                }
                case 1: case 2: case 3: case 8: case 12:
                {
                    const int64_t v = whole (((int64_t) 1 << (F.bits - 1)) - 1);
                    bits = (uint64_t) v << (8 * bytes - F.bits);
                    w = std::ldexp ((double) v, 1 - (int) F.bits);
                    break;
                }
                case 9: { const int64_t v = (int64_t) r.u64(); bits = (uint64_t) v; w = std::ldexp ((double) v, -63); break; }
                case 4:
                {
                    const float v = r.chance (0.05) ? r.pick<float> ({ 0.f, -0.f, 1.f, -1.f, 1e-30f, 123.5f, -70000.f, 1e30f }) : (float) r.uni (-1.5, 1.5);
                    uint32_t b; std::memcpy (&b, &v, 4); bits = b; w = v; break;
                }
                case 5: { const double v = r.uni (-1.5, 1.5); std::memcpy (&bits, &v, 8); w = v; break; }
                case 6: { const uint8_t v = (uint8_t) r.range (0, 255); bits = v; w = alaw (v); break; }
                default: { const uint8_t v = (uint8_t) r.range (0, 255); bits = v; w = ulaw (v); }
            }
            const unsigned n = bytes;
            for (unsigned i = 0; i < n; ++i) data += (char) (bits >> 8 * (big ? n - 1 - i : i));
        }
    const bool ext = f.container == riff && ! odd && r.chance (0.25);
    auto junk = [&]
    {
        std::string s;
        for (int n = r.chance (0.7) ? 0 : (int) r.range (1, 2); n > 0; --n)
        {
            const size_t len = (size_t) r.range (0, 40);
            if (f.container == w64)
            {
                for (int i = 0; i < 16; ++i) s += (char) (i == 0 ? 'j' : r.range (0, 255));
                put64 (s, 24 + len);
                for (size_t i = 0; i < (len + 7) / 8 * 8; ++i) s += (char) r.range (0, 255);
                continue;
            }
            s += isAiff ? r.pick<std::string> ({ "MARK", "ANNO", "NAME", "APPL" }) : r.pick<std::string> ({ "LIST", "junk", "cue ", "bext", "id3 " });
            big ? be32 (s, (uint32_t) len) : isAiff ? be32 (s, (uint32_t) len) : put32 (s, (uint32_t) len);
            for (size_t i = 0; i < len + len % 2; ++i) s += (char) r.range (0, 255);
        }
        return s;
    };
    const std::string before = junk(), after = junk();
    const unsigned align = channels * bytes;
    const std::string pad (data.size() % 2, '\0');
    std::string fmt;
    if (f.container == rifx) { be16 (fmt, F.tag); be16 (fmt, channels); be32 (fmt, rate); be32 (fmt, rate * align); be16 (fmt, align); be16 (fmt, F.bits); }
    else { put16 (fmt, F.tag); put16 (fmt, channels); put32 (fmt, rate); put32 (fmt, rate * align); put16 (fmt, align); put16 (fmt, F.bits); }
    switch (f.container)
    {
        case riff: f.bytes = wavBytes (F.tag, channels, rate, F.bits, data, ext, before, after); break;
        case rifx:
        {
            std::string body = "WAVEfmt ";
            be32 (body, 16); body += fmt;
            body += before + "data"; be32 (body, (uint32_t) data.size());
            body += data + pad + after;
            f.bytes = "RIFX"; be32 (f.bytes, (uint32_t) body.size());
            f.bytes += body;
            break;
        }
        case rf64:
        {
            std::string body = "fmt ";
            put32 (body, 16);
            body += fmt + before + "data";
            put32 (body, r.chance (0.8) ? 0xffffffffu : (uint32_t) data.size());
            body += data + pad + after;
            f.bytes = "RF64";
            put32 (f.bytes, 0xffffffffu);
            f.bytes += "WAVEds64"; put32 (f.bytes, 28); put64 (f.bytes, 4 + 36 + body.size()); put64 (f.bytes, data.size()); put64 (f.bytes, frames); put32 (f.bytes, 0);
            f.bytes += body;
            break;
        }
        case w64:
        {
            auto guid = [] (const char* four) { return std::string (four, 4) + std::string ("\xf3\xac\xd3\x11\x8c\xd1\x00\xc0\x4f\x8e\xdb\x8a", 12); };
            std::string body = guid ("wave") + guid ("fmt ");
            put64 (body, 24 + fmt.size()); body += fmt;
            body += before;
            body += guid ("data"); put64 (body, 24 + data.size());
            body += data + std::string ((8 - data.size() % 8) % 8, '\0') + after;
            f.bytes = std::string ("riff\x2e\x91\xcf\x11\xa5\xd6\x28\xdb\x04\xc1\x00\x00", 16);
            put64 (f.bytes, 24 + body.size());
            f.bytes += body;
            break;
        }
        default:
        {
            std::string comm;
            be16 (comm, channels); be32 (comm, (uint32_t) frames); be16 (comm, F.tag > 3 && r.chance (0.3) ? 16 : F.bits);
            uint64_t m = rate;  // an 80-bit float
            int e = 63;
            while (! (m >> 63)) { m <<= 1; --e; }
            be16 (comm, (unsigned) (16383 + e)); be32 (comm, (uint32_t) (m >> 32)); be32 (comm, (uint32_t) m);
            if (f.container == aifc)
            {
                const bool up = r.chance (0.3);
                comm += sowt ? "sowt" : raw ? "raw " : F.tag == 1 ? "NONE" : f.format == 4 ? (up ? "FL32" : "fl32") : f.format == 5 ? (up ? "FL64" : "fl64") : f.format == 6 ? (up ? "ALAW" : "alaw") : up ? "ULAW" : "ulaw";
                comm += r.chance (0.5) ? std::string ("\0\0", 2) : std::string ("\x05names", 6);
            }
            const unsigned offset = r.chance (0.15) ? (unsigned) r.range (0, 20) * 2 : 0;
            std::string c = "COMM", d = "SSND";
            be32 (c, (uint32_t) comm.size()); c += comm;
            be32 (d, (uint32_t) (data.size() + 8 + offset)); be32 (d, offset); be32 (d, 0);
            d += std::string (offset, 'o') + data + pad;
            std::string body = f.container == aifc ? "AIFC" : "AIFF";
            if (f.container == aifc && r.chance (0.5)) { body += "FVER"; be32 (body, 4); be32 (body, 0xa2805140u); }
            body += r.chance (0.15) ? before + d + c + after : c + before + d + after;
            f.bytes = "FORM"; be32 (f.bytes, (uint32_t) body.size());
            f.bytes += body;
        }
    }
    f.str = hv::cat (CONTAINERS[f.container], " ", F.name, odd ? hv::cat (F.bits) : "", ext ? " extensible" : "", sowt ? " sowt" : "", raw ? " raw" : "", " channels=", channels, " frames=", frames, " rate=", rate);
    return f;
}

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const unsigned rate = r.pick<unsigned> ({ 8000, 11025, 22050, 44100, 44100, 48000, 96000, 192000, 384000, 1, 12345 });
    unsigned channels = (unsigned) hv::genChannels (r, 256);
    size_t frames = r.chance (0.06) ? 0 : hv::genSize (r, std::max<size_t> (1, (r.chance (cx.thorough ? 0.05 : 0.02) ? 140000 : 2500) / channels));
    const File file = genFile (r, channels, frames, rate);
    const double tol = FORMATS[file.format].tol;
    const bool loop = r.chance (0.5);
    using W = hart::WavFile<T>;

    // relative paths resolve against the data root
    const std::string name = r.pick<std::string> ({ "a.wav", "with space.wav", "sub/b.wav", "no-extension" });
    ::mkdir ((cx.scratch + "/sub").c_str(), 0700);
    const std::string path = cx.scratch + "/" + name;
    hv::writeFile (path, file.bytes);
    const bool relative = r.chance (0.3);
    if (relative) setOptions ({ "--data-root-path", cx.scratch });
    cx.describe = hv::cat (hv::typeTag<T>(), " ", file.str, loop ? " loop" : " once", relative ? " relative" : "");
    cx.nontrivial (cx.describe);
    if (cx.index % 300 == 0) cx.sample (cx.describe);
    const std::string given = relative ? name : path;
    std::unique_ptr<W> w (loop ? new W (given, W::Loop::yes) : r.chance (0.5) ? new W (given) : new W (given, W::Loop::no));
    if (r.chance (0.4)) ::unlink (path.c_str());  // everything has been read when opening
    else if (r.chance (0.2)) hv::writeFile (path, "replaced by something else");

    const int sessions = (int) r.range (1, 3);
    for (int i = 0; i < sessions; ++i)
    {
        const size_t n = r.chance (0.6) ? channels : (size_t) r.range (1, channels), block = hv::genSize (r, 1 + std::min<size_t> (frames + 9, r.chance (0.1) ? 70000 : 5000));
        const size_t total = std::max<size_t> (1, (size_t) ((double) std::min<size_t> (frames, 40000 / n + 3000) * r.uni (0.2, 3.5)) + (size_t) r.range (0, 5));
        if (i > 0 && r.chance (0.3)) w.reset (new W (*w));
        cx.need (w->supportsNumChannels (n), "layout-refused", hv::cat (n, " channels of ", channels, " were declared unsupported"));
        if (r.chance (0.5)) start<T> (*w, rate, n, block);
        else { w->prepareWithDSPChain (rate, n, block); w->resetWithDSPChain(); }
        const auto got = renderAll<T> (*w, n, hv::genPartition (r, total, block));
        for (size_t c = 0; c < n; ++c)
            for (size_t f = 0; f < total; ++f)
            {
                const double want = frames == 0 ? 0 : loop ? file.want[c][f % frames] : f < frames ? file.want[c][f] : 0;
                const bool silent = frames == 0 || (! loop && f >= frames);
                const double g = (double) got[c][f];
                if (! (std::abs (g - want) <= (silent ? 0 : tol + 1.2e-7 * std::abs (want) * (file.format != 4))))
                {
                    cx.viol (hv::cat (silent ? "not-silent-after" : "value", ":", FORMATS[file.format].name, loop ? ":loop" : ""), hv::cat ("channel ", c, " frame ", f, " of ", frames, ": got ", g, ", want ", want));
                    return;
                }
            }
        cx.saw ("samples compared", n * total);
        cx.saw ("playbacks");
        if (loop && total > frames && frames) cx.saw ("looped");
        if (! loop && total > frames) cx.saw ("played past the end");
        if (n < channels) cx.saw ("fewer channels");
    }
    cx.saw (std::string ("format ") + FORMATS[file.format].name);
    cx.saw (std::string ("container ") + CONTAINERS[file.container]);
    if (frames == 0) cx.saw ("empty files");

    // refusals
    {
        const size_t n = channels + (size_t) r.range (1, 3);
        cx.need (! w->supportsNumChannels (n), "too-many-channels", hv::cat (n, " channels were declared supported, the file has ", channels));
        const auto o = observe ([&] { w->prepareWithDSPChain (rate, n, 64); });
        cx.need (o.errorType == "ChannelLayout", "too-many-channels-prepare", hv::cat ("preparing for ", n, " of ", channels, " channels: ", o.threw ? o.errorType : std::string ("accepted")));
        const double other = r.pick<double> ({ rate + 1.0, rate - 0.5, rate * 2.0, rate / 2.0, rate + 0.001 });
        const auto o2 = observe ([&] { w->prepareWithDSPChain (other, channels, 64); });
        cx.need (o2.errorType == "Unsupported" || o2.errorType == "SampleRate", "other-rate", hv::cat ("preparing for ", other, " Hz: ", o2.threw ? o2.errorType : std::string ("accepted")));
        cx.saw ("refusals", 2);
    }
    // the host refuses the same
    if (r.chance (0.3))
    {
        auto log = newLog<T>();
        const bool badRate = r.chance (0.5);
        const auto o = observe ([&]
        {
            const size_t n = badRate ? 1 : std::min<size_t> (128, channels + 1);
            hart::processAudioWith (RecordingDSP<T> (log)).withSampleRate (badRate ? rate * 2.0 : rate).withDuration (100.0 / rate)
                .withInputChannels (n).withOutputChannels (1).withInputSignal (*w).process();
        });
        const bool impossible = badRate || channels < 128;
        cx.need (o.threw == impossible, "host-refusal", "the host: " + (o.threw ? o.errorType : std::string ("accepted")));
        cx.need (! impossible || log->count (Event::process) == 0, "host-refusal-processed", "audio was processed before the refusal");
        cx.saw ("host refusals");
    }
    // missing and unreadable files
    if (r.chance (0.3))
    {
        const std::string bad = r.pick<std::string> ({ cx.scratch + "/missing.wav", cx.scratch, "", "/", cx.scratch + "/sub/nowhere/x.wav", path + "/x", std::string (5000, 'a'), cx.scratch + "/text", cx.scratch + "/broken", cx.scratch + "/broken", cx.scratch + "/broken" });
        // a file that lacks something no wav file can do without
        std::string whole = wavBytes (1, 2, 44100, 16, std::string (400, 'x'));
        switch ((int) r.range (0, 5))
        {
            case 0: whole.resize ((size_t) r.range (0, 43)); break;            // ends before its audio
            case 1: whole.replace (36, 4, "dato"); break;                      // no audio
            case 2: whole.replace (12, 4, "fmd "); break;                      // no format
            case 3: whole[22] = whole[23] = 0; break;                          // no channels
            case 4: whole[24] = whole[25] = whole[26] = whole[27] = 0; break;  // no rate
            default: whole.replace (8, 4, "AVI "); break;
        }
        hv::writeFile (cx.scratch + "/broken", whole);
        hv::writeFile (cx.scratch + "/text", "this is not a wav file, but it is long enough to hold the header of one, isn't it?");
        if (bad != path + "/x" || hv::fileExists (path))
        {
            const auto o = observe ([&] { W x (bad, loop ? W::Loop::yes : W::Loop::no); });
            cx.need (o.errorType == "IO", "missing-file", "opening '" + bad.substr (0, 100) + "': " + (o.threw ? o.errorType : std::string ("accepted")));
            cx.saw ("missing or unreadable files");
        }
    }
    if (relative) setOptions ({ "--data-root-path", "." });
    ::unlink (path.c_str());
}

void hv_case (hv::Ctx& cx)
{
    if (cx.rng.chance (0.5)) run<float> (cx); else run<double> (cx);
}
