// S07: no file content can corrupt memory or crash wav playback. Valid files of all kinds of
// containers are mutated; opening either fails with an I/O error or yields a signal that can be
// queried, rendered, reset, looped and copied, with the sanitizers watching.
#include "stock.hpp"
#include "dr_wav.h"
using namespace hp;

static std::string guid (uint32_t a, const char* rest) { std::string s; put32 (s, a); return s + std::string (rest, 12); }
static std::string w64guid (const char* four) { return std::string (four, 4) + std::string ("\xf3\xac\xd3\x11\x8c\xd1\x00\xc0\x4f\x8e\xdb\x8a", 12); }
static void put64 (std::string& s, uint64_t v) { put32 (s, (uint32_t) v); put32 (s, (uint32_t) (v >> 32)); }
static void be16 (std::string& s, unsigned v) { s += (char) (v >> 8); s += (char) v; }
static void be32 (std::string& s, uint32_t v) { be16 (s, v >> 16); be16 (s, v & 0xffff); }

/// a valid, or nearly valid, file
static std::string seedFile (hv::Rng& r, std::string& kind)
{
    const unsigned channels = (unsigned) hv::genChannels (r, 257), rate = r.pick<unsigned> ({ 8000, 44100, 48000, 192000 });
    const size_t frames = (size_t) r.range (0, r.chance (0.1) ? 5000 / (int64_t) channels : 60);
    const int container = (int) r.range (0, 6);
    static const unsigned tags[] = { 1, 1, 1, 1, 3, 3, 6, 7, 2, 0x11, 1, 0xFFFE, 0, 3, 3, 3, 1, 1, 1, 6 };
    static const unsigned bits[] = { 8, 16, 24, 32, 32, 64, 8, 8, 4, 4, 12, 16, 16, 40, 48, 16, 40, 64, 72, 16 };
    const int f = (int) r.range (0, r.chance (0.8) ? 9 : 19);
    size_t bytes = frames * channels * ((bits[f] + 7) / 8);
    std::string data;
    for (size_t i = 0; i < bytes; ++i) data += (char) r.range (0, 255);
    kind = hv::cat ("container ", container, " format ", f);

    if (f == 8 || f == 9)  // ADPCM has its own block layout
    {
        const unsigned ch = (unsigned) r.range (1, r.chance (0.2) ? 8 : 2), align = (unsigned) (f == 8 ? 7 * ch + r.range (1, 60) : 4 * ch * r.range (2, 16)), spb = f == 8 ? (align - 7 * ch) * 2 / ch + 2 : (align - 4 * ch) * 2 / ch + 1;
        std::string fmt;
        put16 (fmt, tags[f]); put16 (fmt, ch); put32 (fmt, rate); put32 (fmt, rate * align / std::max (1u, spb)); put16 (fmt, align); put16 (fmt, 4);
        if (f == 8)
        {
            put16 (fmt, 32); put16 (fmt, spb); put16 (fmt, 7);
            for (int v : { 256, 0, 512, -256, 0, 0, 192, 64, 240, 0, 460, -208, 392, -232 }) put16 (fmt, (unsigned) (uint16_t) v);
        }
        else { put16 (fmt, 2); put16 (fmt, spb); }
        data.clear();
        for (size_t i = 0, n = align * (size_t) r.range (0, r.chance (0.08) ? 150 : 20); i < n; ++i) data += (char) (r.chance (0.5) ? r.range (0, 255) : r.range (0, 6));
        std::string body = "WAVEfmt ";
        put32 (body, (uint32_t) fmt.size());
        body += fmt;
        body += "fact"; put32 (body, 4); put32 (body, (uint32_t) (data.size() / align * spb));
        body += "data"; put32 (body, (uint32_t) data.size());
        body += data;
        std::string s = "RIFF";
        put32 (s, (uint32_t) body.size());
        return s + body;
    }
    std::string extra;
    if (r.chance (0.4))
    {
        const char* ids[] = { "smpl", "inst", "cue ", "acid", "bext", "LIST", "fact", "JUNK", "fmt ", "data" };
        for (int n = (int) r.range (1, 3); n > 0; --n)
        {
            const size_t len = r.pick<size_t> ({ 0, 1, 3, 4, 7, 16, 24, 28, 36, 60, 602, 700 });
            extra += ids[r.range (0, 9)];
            put32 (extra, (uint32_t) len);
            for (size_t i = 0; i < len; ++i) extra += (char) (r.chance (0.5) ? r.range (0, 255) : r.range (0, 3));
        }
    }
    const bool before = r.chance (0.5);
    if (container <= 2) return wavBytes (tags[f], channels, rate, bits[f], data, r.chance (0.3), before ? extra : "", before ? "" : extra);
    std::string fmt;
    const unsigned align = channels * ((bits[f] + 7) / 8);
    put16 (fmt, tags[f]); put16 (fmt, channels); put32 (fmt, rate); put32 (fmt, rate * align); put16 (fmt, align); put16 (fmt, bits[f]);
    if (container == 3)  // RIFX: big endian
    {
        std::string b = "RIFX";
        std::string body = "WAVEfmt ";
        be32 (body, 16); be16 (body, tags[f]); be16 (body, channels); be32 (body, rate); be32 (body, rate * align); be16 (body, align); be16 (body, bits[f]);
        body += "data"; be32 (body, (uint32_t) data.size());
        be32 (b, (uint32_t) (body.size() + data.size()));
        return b + body + data;
    }
    if (container == 4)  // RF64
    {
        std::string b = "RF64";
        put32 (b, 0xffffffffu);
        b += "WAVEds64"; put32 (b, 28); put64 (b, 36 + 36 + data.size()); put64 (b, data.size()); put64 (b, frames); put32 (b, 0);
        b += "fmt "; put32 (b, 16); b += fmt;
        b += extra;
        b += "data"; put32 (b, 0xffffffffu);
        return b + data;
    }
    if (container == 5)  // Sony Wave64
    {
        std::string b = guid (0x66666972, "\x2e\x91\xcf\x11\xa5\xd6\x28\xdb\x04\xc1\x00\x00");
        put64 (b, 40 + 24 + 16 + 24 + data.size());
        b += w64guid ("wave");
        b += w64guid ("fmt "); put64 (b, 24 + fmt.size()); b += fmt;
        if (r.chance (0.5)) { b += w64guid ("fact"); put64 (b, 32); put64 (b, frames); }
        b += w64guid ("data"); put64 (b, 24 + data.size());
        return b + data;
    }
    // AIFF / AIFC
    std::string comm;
    be16 (comm, channels); be32 (comm, (uint32_t) frames); be16 (comm, bits[f]);
    comm += std::string ("\x40\x0e\xac\x44\0\0\0\0\0\0", 10);
    const bool aifc = r.chance (0.5);
    if (aifc) comm += r.pick<std::string> ({ "NONE", "sowt", "fl32", "FL64", "alaw", "ULAW", "raw ", "in24", "GSM " }) + std::string ("\0\0", 2);
    std::string body = aifc ? "AIFC" : "AIFF";
    body += "COMM"; be32 (body, (uint32_t) comm.size()); body += comm;
    body += "SSND"; be32 (body, (uint32_t) data.size() + 8); be32 (body, 0); be32 (body, 0); body += data;
    std::string b = "FORM"; be32 (b, (uint32_t) body.size());
    return b + body;
}

static std::string mutate (hv::Rng& r, std::string s)
{
    const int times = r.chance (0.1) ? 0 : (int) r.range (1, r.chance (0.2) ? 12 : 3);
    for (int i = 0; i < times; ++i)
    {
        if (s.empty()) return s;
        const size_t head = std::min<size_t> (s.size(), 140), at = (size_t) r.range (0, (int64_t) (r.chance (0.85) ? head : s.size()) - 1);
        auto set32 = [&] (uint32_t v) { for (size_t k = 0; k < 4 && at + k < s.size(); ++k) s[at + k] = (char) (v >> (8 * k)); };
        switch ((int) (r.chance (0.25) ? 8 : r.range (0, 9)))
        {
            case 0: s[at] = (char) r.range (0, 255); break;
            case 1: s[at] ^= (char) (1 << r.range (0, 7)); break;
            case 2: s.resize ((size_t) r.range (0, (int64_t) s.size())); break;
            case 3: s.resize (at); break;
            case 4: set32 (r.pick<uint32_t> ({ 0, 1, 2, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0xffff, 0x10000, 0x7fff, 0x8000, 0x01000000, 0x40000000 })); break;
            case 5: if (at + 1 < s.size()) { const unsigned v = r.pick<unsigned> ({ 0, 1, 2, 255, 256, 0x7fff, 0x8000, 0xffff, 3, 4, 6, 7, 8, 0x11, 12, 16, 24, 32, 64, 0xfffe }); s[at] = (char) v; s[at + 1] = (char) (v >> 8); } break;
            case 6: s.insert (at, std::string ((size_t) r.range (1, 40), (char) r.range (0, 255))); break;
            case 7: s.erase (at, (size_t) r.range (1, 20)); break;
            case 8:  // a chunk header changes its size
            {
                const char* ids[] = { "fmt ", "data", "fact", "RIFF", "ds64", "smpl", "cue ", "bext", "LIST", "inst", "acid", "COMM", "SSND", "FORM", "wave", "riff" };
                const auto p = s.find (ids[r.range (0, 15)]);
                if (p == std::string::npos) break;
                // Wave64 sizes have 8 bytes and follow a GUID of 16 bytes; RF64 has 8-byte fields in its ds64 chunk
                const bool wide = s.compare (0, 4, "riff") == 0, ds = s.compare (p, 4, "ds64") == 0 && r.chance (0.7);
                size_t where = p + (wide ? 16 : 4) + (ds ? 4 + 8 * (size_t) r.range (0, 2) : 0);
                if (! ds && r.chance (0.15)) where += wide ? 8 : 4;  // the first field of the chunk
                uint64_t v = 0;
                switch ((int) r.range (0, 4))
                {
                    case 0: v = r.u64(); break;
                    case 1: v = (uint64_t) r.range (0, 2000); break;
                    case 2: v = (uint64_t) r.range (0, 50); break;
                    case 3: v = (uint64_t) 0 - (uint64_t) r.range (0, 200); break;
                    default: v = ((uint64_t) 1 << r.range (0, 63)) - (uint64_t) r.range (0, 40) + (uint64_t) r.range (0, 40);
                }
                for (size_t k = 0; k < (wide || ds ? 8u : 4u) && where + k < s.size(); ++k) s[where + k] = (char) (v >> (8 * k));
                break;
            }
            default: s += s.substr (at, 100);
        }
    }
    return s;
}

static uint64_t allocated = 0;

template <typename T> static void use (hv::Ctx& cx, hart::WavFile<T>& w, const std::string& path, bool fill)
{
    auto& r = cx.rng;
    size_t channels = 0;
    for (size_t n = 1; n <= 128; ++n) if (w.supportsNumChannels (n)) channels = n;
    if (channels == 0) { cx.saw ("opened, no usable channels"); return; }
    // every rate is refused but the file's
    double rate = 0;
    unsigned int fileChannels = 0, fileRate = 0;
    {
        drwav h;
        if (drwav_init_file (&h, path.c_str(), nullptr)) { fileChannels = h.channels; fileRate = h.sampleRate; drwav_uninit (&h); }
    }
    rate = fileRate;
    cx.need (fileChannels >= channels, "channels", hv::cat (channels, " channels declared supported, the file has ", fileChannels));
    for (int i = 0; i < 3; ++i)
    {
        const size_t n = r.chance (0.5) ? channels : (size_t) r.range (1, (int64_t) channels), block = hv::genSize (r, 300);
        const auto o = observe ([&] { start<T> (w, rate, n, block); });
        if (o.threw)
        {
            cx.need (o.errorType == "SampleRate" || o.errorType == "Unsupported" || o.errorType == "ChannelLayout", "prepare-error", o.errorType + ": " + o.error);
            cx.saw ("refused when preparing");
            return;
        }
        const auto a = renderAll<T> (w, n, hv::genPartition (r, (size_t) r.range (1, 400), block));
        for (auto& c : a) for (T v : c) if (v == sentinel<T>()) { cx.viol ("not-filled", "a sample was not filled"); return; }
        // the sanitizer fills fresh memory with '{': such samples come from memory that was never written
        if (! fill)
        {
            const uint32_t bits = 0x7b7b7b7bu;
            float unwritten;
            std::memcpy (&unwritten, &bits, 4);
            for (auto& c : a) for (T v : c) if (v == (T) unwritten) { cx.viol ("uninitialised", "a sample comes from memory that was never written"); return; }
        }
        if (r.chance (0.5)) w.reset();
        if (r.chance (0.3))
        {
            auto c = w.copy();
            start<T> (*c, rate, n, block);
            renderAll<T> (*c, n, hv::genPartition (r, 50, block));
        }
        std::ostringstream s;
        s << w;
        cx.saw ("renderings of mutated files");
    }
}

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    std::string kind, bytes;
    if (r.chance (0.03))
    {
        kind = "random bytes";
        for (size_t i = (size_t) r.range (0, 300); i > 0; --i) bytes += (char) r.range (0, 255);
    }
    else if (r.chance (0.02)) { kind = "text"; bytes = std::string ((size_t) r.range (0, 500), 'x'); }
    else bytes = mutate (r, seedFile (r, kind));
    const std::string path = cx.scratch + "/m.wav";
    hv::writeFile (path, bytes);
    const bool loop = r.chance (0.5);
    cx.describe = hv::cat (hv::typeTag<T>(), " ", kind, " ", bytes.size(), " bytes", loop ? " loop" : "", " hash ", hv::hashOf (bytes));
    cx.nontrivial (hv::cat (hv::hashOf (bytes)));
    if (cx.index % 1000 == 0) cx.sample (cx.describe);
    using W = hart::WavFile<T>;
    bool opened = false;
    const int handles = hv::nextHandle();
    const auto o = observe ([&]
    {
        W w (path, loop ? W::Loop::yes : W::Loop::no);
        opened = true;
        cx.saw ("opened");
        use<T> (cx, w, path, bytes.find ("{{{") != std::string::npos);
    });
    if (! opened)
    {
        cx.need (o.errorType == "IO" || o.errorType.find ("bad_alloc") != std::string::npos, "open-error", "opening failed with " + o.errorType + ": " + o.error);
        cx.saw ("refused");
        // several failures in a row must not accumulate memory
        const size_t b2 = hv::liveBytes();
        for (int i = 0; i < 3; ++i) { try { W w (path); } catch (...) {} }
        const size_t b3 = hv::liveBytes();
        cx.need (b3 <= b2, "leak-on-error", hv::cat (b3 - b2, " bytes are left after three failures to open the file"));
    }
    else
    {
        cx.need (! o.threw, "use-error", "using the opened file failed with " + o.errorType + ": " + o.error);
        const size_t b2 = hv::liveBytes();
        for (int i = 0; i < 3; ++i) { W w (path); }
        const size_t b3 = hv::liveBytes();
        cx.need (b3 <= b2, "leak", hv::cat (b3 - b2, " bytes are left after opening the file three times"));
    }
    // the sanitizer's own thread opens a file now and then, for a moment
    int now = hv::nextHandle();
    for (int i = 0; i < 200 && now > handles; ++i) { ::usleep (1000); now = hv::nextHandle(); }
    cx.need (now <= handles, "handle-leak", hv::cat ("the file has not been closed: next handle ", handles, " -> ", now));
}

void hv_case (hv::Ctx& cx)
{
    if (cx.rng.chance (0.5)) run<float> (cx); else run<double> (cx);
}
