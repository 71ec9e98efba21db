// Probe participants for HART runs: they take part through the public API only and
// record everything that is done to them.
#pragma once

#include <climits>
#include "hv.hpp"
#include "hart.hpp"

namespace hp
{

template <typename T> using Planes = std::vector<std::vector<T>>;

template <typename T> bool sameBits (T a, T b) { return std::memcmp (&a, &b, sizeof (T)) == 0; }

template <typename T> Planes<T> planesOf (const hart::AudioBuffer<T>& b)
{
    Planes<T> p (b.getNumChannels());
    for (size_t c = 0; c < p.size(); ++c)
        if (b.getNumFrames() > 0) p[c].assign (b[c], b[c] + b.getNumFrames());
    return p;
}

template <typename T> void append (Planes<T>& p, const hart::AudioBuffer<T>& b)
{
    if (p.size() < b.getNumChannels()) p.resize (b.getNumChannels());
    for (size_t c = 0; c < b.getNumChannels(); ++c)
        if (b.getNumFrames() > 0) p[c].insert (p[c].end(), b[c], b[c] + b.getNumFrames());
}

template <typename T> hart::AudioBuffer<T> bufferOf (const Planes<T>& p)
{
    hart::AudioBuffer<T> b (p.size(), p.empty() ? 0 : p[0].size());
    for (size_t c = 0; c < p.size(); ++c)
        for (size_t f = 0; f < p[c].size(); ++f) b[c][f] = p[c][f];
    return b;
}

template <typename T> uint64_t hashOf (const Planes<T>& p)
{
    uint64_t h = 1469598103934665603ull + p.size();
    for (auto& c : p)
    {
        h = hv::mix (h ^ c.size());
        for (T v : c) { uint64_t b = 0; std::memcpy (&b, &v, sizeof (T)); h = (h ^ b) * 1099511628211ull; h ^= h >> 29; }
    }
    return h;
}

/// the first difference larger than tol (absolute); a NaN on one side only counts as different
template <typename T> std::string diff (const Planes<T>& got, const Planes<T>& want, double tol)
{
    if (got.size() != want.size()) return hv::cat ("channels: got ", got.size(), ", want ", want.size());
    for (size_t c = 0; c < got.size(); ++c)
    {
        if (got[c].size() != want[c].size()) return hv::cat ("frames in channel ", c, ": got ", got[c].size(), ", want ", want[c].size());
        for (size_t f = 0; f < got[c].size(); ++f)
        {
            const double g = (double) got[c][f], w = (double) want[c][f];
            if (g == w || (std::isnan (g) && std::isnan (w))) continue;
            if (! (std::abs (g - w) <= tol)) return hv::cat ("channel ", c, " frame ", f, ": got ", g, ", want ", w);
        }
    }
    return "";
}

// ---- instance ledger ----------------------------------------------------------------------

struct Ledger
{
    static std::map<const void*, int>& live() { static std::map<const void*, int> m; return m; }
    static int& faults() { static int n = 0; return n; }
    static uint64_t& created() { static uint64_t n = 0; return n; }
};

/// counts the object it is a member of
struct Counted
{
    Counted() { enter(); }
    Counted (const Counted&) { enter(); }
    Counted (Counted&&) noexcept { enter(); }
    Counted& operator= (const Counted&) { check(); return *this; }
    Counted& operator= (Counted&&) noexcept { check(); return *this; }
    ~Counted() { check(); Ledger::live().erase (this); }
private:
    void enter() { ++Ledger::created(); if (Ledger::live()[this]++ != 0) ++Ledger::faults(); }
    void check() const { if (Ledger::live().find (this) == Ledger::live().end()) ++Ledger::faults(); }
};

// ---- event log ----------------------------------------------------------------------------

struct Event
{
    enum Kind { supLayout, supChannels, supRate, supEnvelope, reset, prepare, setValue, process, destroyed, match, details, canBlock } kind;
    size_t a = 0, b = 0, c = 0;  // channels in/out, frames, ...
    double x = 0;                // rate, value
    int id = 0;
    std::thread::id thread = std::this_thread::get_id();
};

inline const char* kindName (Event::Kind k)
{
    static const char* n[] = { "supportsLayout", "supportsChannels", "supportsRate", "supportsEnvelope", "reset", "prepare", "setValue", "process", "destroyed", "match", "details", "canBlock" };
    return n[(int) k];
}

template <typename T> struct Log
{
    std::vector<Event> events;
    Planes<T> in, out;                            // everything processed or rendered
    std::map<int, std::vector<double>> envelopes; // everything delivered, per parameter
    std::vector<std::string> envelopeErrors;
    std::vector<size_t> blocks;
    void add (Event e) { events.push_back (e); }
    size_t count (Event::Kind k) const { size_t n = 0; for (auto& e : events) n += e.kind == k; return n; }
    int first (Event::Kind k) const { for (size_t i = 0; i < events.size(); ++i) if (events[i].kind == k) return (int) i; return -1; }
    int last (Event::Kind k) const { for (size_t i = events.size(); i-- > 0;) if (events[i].kind == k) return (int) i; return -1; }
    void clear() { *this = Log<T>(); }
};

template <typename T> using LogPtr = std::shared_ptr<Log<T>>;
template <typename T> LogPtr<T> newLog() { return std::make_shared<Log<T>>(); }

// ---- parameter values ---------------------------------------------------------------------

/// a list of parameter values to set: repeated ones, current ones, negative and big ids, special values
inline std::vector<std::pair<int, double>> genValues (hv::Rng& r)
{
    std::vector<std::pair<int, double>> v;
    const int n = r.chance (0.03) ? (int) r.range (6, 300) : (int) r.range (0, 6);
    const bool few = r.chance (0.4);
    for (int i = 0; i < n; ++i)
    {
        const int id = few ? (int) r.range (0, 1) : r.chance (0.8) ? (int) r.range (0, 3) : r.chance (0.5) ? (int) r.range (-3, -1) : (int) r.range (4, INT_MAX);
        double x = few ? (double) r.range (-1, 1) : r.uni (-5, 5);
        if (r.chance (0.1)) x = r.pick<double> ({ 0.0, -0.0, 1e300, -1e-300, hart::inf, -hart::inf, 0.1f, 0.1, 16777217.0, 1e-9 });
        v.push_back ({ id, x });
        if (r.chance (0.15)) v.push_back (v[(size_t) r.range (0, (int) v.size() - 1)]);
    }
    return v;
}

// ---- signals ------------------------------------------------------------------------------

/// value of the probe signal; unique per (channel, frame) and exact in float for the sizes used
template <typename T> T indexValue (size_t channel, size_t frame, size_t numChannels, uint64_t salt = 0)
{
    const uint64_t n = (uint64_t) frame * numChannels + channel + 1 + salt;
    return (T) ((double) (n & 0xffffff) / 16777216.0 * ((n >> 24) & 1 ? -1.0 : 1.0));
}

template <typename T> class IndexSignal : public hart::Signal<T>
{
public:
    using SampleType = T;
    template <typename U> using Signal = hart::Signal<U>;
    LogPtr<T> log;
    uint64_t salt = 0;
    std::function<bool (size_t)> channelsOk;
    std::function<bool (double)> rateOk;

    explicit IndexSignal (LogPtr<T> l = newLog<T>(), uint64_t s = 0): log (l), salt (s) {}
    bool supportsNumChannels (size_t n) const override
    {
        Event e { Event::supChannels }; e.a = n; e.id = ! channelsOk || channelsOk (n); log->add (e);
        return e.id != 0;
    }
    bool supportsSampleRate (double r) const override
    {
        Event e { Event::supRate }; e.x = r; e.id = ! rateOk || rateOk (r); log->add (e);
        return e.id != 0;
    }
    void prepare (double rate, size_t channels, size_t block) override
    {
        Event e { Event::prepare }; e.x = rate; e.a = channels; e.c = block; log->add (e);
    }
    void renderNextBlock (hart::AudioBuffer<T>& o) override
    {
        Event e { Event::process }; e.a = o.getNumChannels(); e.c = o.getNumFrames(); log->add (e);
        log->blocks.push_back (o.getNumFrames());
        for (size_t c = 0; c < o.getNumChannels(); ++c)
            for (size_t f = 0; f < o.getNumFrames(); ++f)
                o[c][f] = indexValue<T> (c, pos + f, o.getNumChannels(), salt);
        append (log->out, o);
        pos += o.getNumFrames();
    }
    void reset() override { log->add (Event { Event::reset }); pos = 0; }
    void represent (std::ostream& s) const override { s << "IndexSignal (" << salt << ")"; }
    std::unique_ptr<hart::Signal<T>> copy() const override { return std::unique_ptr<hart::Signal<T>> (new IndexSignal (*this)); }
    std::unique_ptr<hart::Signal<T>> move() override { return std::unique_ptr<hart::Signal<T>> (new IndexSignal (std::move (*this))); }
    size_t pos = 0;
    Counted counted;
};

/// plays the given frames, then silence
template <typename T> class DataSignal : public hart::Signal<T>
{
public:
    std::shared_ptr<const Planes<T>> data;
    size_t pos = 0;
    explicit DataSignal (const Planes<T>& d): data (std::make_shared<Planes<T>> (d)) {}
    bool supportsNumChannels (size_t) const override { return true; }
    void prepare (double, size_t, size_t) override {}
    void renderNextBlock (hart::AudioBuffer<T>& o) override
    {
        for (size_t c = 0; c < o.getNumChannels(); ++c)
            for (size_t f = 0; f < o.getNumFrames(); ++f)
                o[c][f] = c < data->size() && pos + f < (*data)[c].size() ? (*data)[c][pos + f] : (T) 0;
        pos += o.getNumFrames();
    }
    void reset() override { pos = 0; }
    void represent (std::ostream& s) const override { s << "DataSignal()"; }
    std::unique_ptr<hart::Signal<T>> copy() const override { return std::unique_ptr<hart::Signal<T>> (new DataSignal (*this)); }
    std::unique_ptr<hart::Signal<T>> move() override { return std::unique_ptr<hart::Signal<T>> (new DataSignal (std::move (*this))); }
    Counted counted;
};

// ---- effects ------------------------------------------------------------------------------

template <typename T> class RecordingDSP : public hart::DSP<T>
{
public:
    LogPtr<T> log;
    std::function<bool (size_t, size_t)> layoutOk;
    std::function<bool (double)> rateOk;
    std::set<int> automatable;
    std::map<int, double> values;
    /// what the effect outputs; by default channel c gets input channel c % n
    std::function<void (const hart::AudioBuffer<T>&, hart::AudioBuffer<T>&, size_t pos)> transform;
    size_t pos = 0;
    int tag = 0;
    bool throwInProcess = false;
    bool keepAudio = true;
    Counted counted;

    explicit RecordingDSP (LogPtr<T> l = newLog<T>(), int t = 0): log (l), tag (t) {}

    void prepare (double rate, size_t in, size_t out, size_t block) override
    {
        Event e { Event::prepare }; e.x = rate; e.a = in; e.b = out; e.c = block; log->add (e);
    }
    void process (const hart::AudioBuffer<T>& input, hart::AudioBuffer<T>& output, const hart::EnvelopeBuffers& env) override
    {
        Event e { Event::process }; e.a = input.getNumChannels(); e.b = output.getNumChannels(); e.c = input.getNumFrames(); log->add (e);
        if (input.getNumFrames() != output.getNumFrames())
            log->envelopeErrors.push_back (hv::cat ("input has ", input.getNumFrames(), " frames, output has ", output.getNumFrames()));
        log->blocks.push_back (input.getNumFrames());
        if (keepAudio) append (log->in, input);
        for (auto& kv : env)
        {
            auto& all = log->envelopes[kv.first];
            if (kv.second.size() != input.getNumFrames())
                log->envelopeErrors.push_back (hv::cat ("automation for parameter ", kv.first, " has ", kv.second.size(), " values in a block of ", input.getNumFrames()));
            // keeps what belongs to this block, so that later blocks stay aligned
            for (size_t i = 0; i < input.getNumFrames(); ++i)
                all.push_back (i < kv.second.size() ? kv.second[i] : std::numeric_limits<double>::quiet_NaN());
        }
        blockKeys.emplace_back();
        for (auto& kv : env) blockKeys.back().insert (kv.first);
        if (transform)
            transform (input, output, pos);
        else
        {
            Planes<T> copy = planesOf (input);  // input and output may be the same object
            for (size_t c = 0; c < output.getNumChannels(); ++c)
                for (size_t f = 0; f < output.getNumFrames(); ++f)
                    output[c][f] = copy[c % copy.size()][f];
        }
        pos += input.getNumFrames();
        if (keepAudio) append (log->out, output);
        if (throwInProcess) throw std::runtime_error ("probe effect failed on purpose");
    }
    std::vector<std::set<int>> blockKeys;
    void reset() override { log->add (Event { Event::reset }); pos = 0; blockKeys.clear(); }
    void setValue (int id, double v) override { Event e { Event::setValue }; e.id = id; e.x = v; log->add (e); values[id] = v; }
    double getValue (int id) const override { auto it = values.find (id); return it == values.end() ? 0.0 : it->second; }
    bool supportsChannelLayout (size_t in, size_t out) const override
    {
        Event e { Event::supLayout }; e.a = in; e.b = out; e.id = ! layoutOk || layoutOk (in, out); log->add (e);
        return e.id != 0;
    }
    bool supportsSampleRate (double r) const override
    {
        Event e { Event::supRate }; e.x = r; e.id = ! rateOk || rateOk (r); log->add (e);
        return e.id != 0;
    }
    bool supportsEnvelopeFor (int id) const override { return automatable.count (id) != 0; }
    void represent (std::ostream& s) const override { s << "RecordingDSP (" << tag << ")"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return std::unique_ptr<hart::DSP<T>> (new RecordingDSP (*this)); }
    std::unique_ptr<hart::DSP<T>> move() override { return std::unique_ptr<hart::DSP<T>> (new RecordingDSP (std::move (*this))); }
};

// ---- matchers -----------------------------------------------------------------------------

/// judges with a predicate over a single sample (per block) or over the whole audio
template <typename T> struct MatcherLog
{
    std::vector<Event> events;
    Planes<T> seen;
    std::vector<size_t> blocks;
    double rate = 0;
    size_t channels = 0, block = 0, prepares = 0, resets = 0, matches = 0;
};

template <typename T> class ProbeMatcher : public hart::Matcher<T>
{
public:
    std::shared_ptr<MatcherLog<T>> log = std::make_shared<MatcherLog<T>>();
    bool perBlock = true;
    /// bad(channel, absolute frame, value)
    std::function<bool (size_t, size_t, T)> bad;
    std::string name = "Probe";
    size_t pos = 0;
    size_t failFrame = 0, failChannel = 0;
    Counted counted;

    void prepare (double r, size_t c, size_t b) override { log->rate = r; log->channels = c; log->block = b; ++log->prepares; }
    bool match (const hart::AudioBuffer<T>& a) override
    {
        ++log->matches;
        log->blocks.push_back (a.getNumFrames());
        append (log->seen, a);
        bool ok = true;
        for (size_t c = 0; ok && c < a.getNumChannels(); ++c)
            for (size_t f = 0; ok && f < a.getNumFrames(); ++f)
                if (bad && bad (c, pos + f, a[c][f])) { ok = false; failFrame = f; failChannel = c; }
        pos += a.getNumFrames();
        return ok;
    }
    bool canOperatePerBlock() override { return perBlock; }
    void reset() override { ++log->resets; pos = 0; }
    hart::MatcherFailureDetails getFailureDetails() const override
    {
        hart::MatcherFailureDetails d;
        d.frame = failFrame;
        d.channel = failChannel;
        d.description = "explanation of " + name;
        return d;
    }
    void represent (std::ostream& s) const override { s << name << " (" << (perBlock ? "block" : "full") << ")"; }
    std::unique_ptr<hart::Matcher<T>> copy() const override { return std::unique_ptr<hart::Matcher<T>> (new ProbeMatcher (*this)); }
    std::unique_ptr<hart::Matcher<T>> move() override { return std::unique_ptr<hart::Matcher<T>> (new ProbeMatcher (std::move (*this))); }
};

// ---- envelopes ----------------------------------------------------------------------------

struct EnvLog
{
    size_t prepares = 0, resets = 0, renders = 0;
    double rate = 0;
    size_t block = 0;
    std::vector<size_t> sizes;
    std::vector<std::string> order;
};

/// an envelope whose value at frame k since the last reset is base + k, so every value tells its frame
class CounterEnvelope : public hart::Envelope
{
public:
    std::shared_ptr<EnvLog> log;
    double base;
    size_t pos = 0;
    double rate = 0;
    Counted counted;
    explicit CounterEnvelope (double b = 0, std::shared_ptr<EnvLog> l = std::make_shared<EnvLog>()): log (l), base (b) {}
    using hart::Envelope::renderNextBlock;
    void renderNextBlock (size_t n, std::vector<double>& v) override
    {
        ++log->renders;
        log->order.push_back ("render");
        log->sizes.push_back (n);
        if (v.size() != n) v.resize (n);
        for (size_t i = 0; i < n; ++i) v[i] = base + (double) pos++;
    }
    void prepare (double r, size_t b) override { ++log->prepares; log->rate = r; log->block = b; rate = r; log->order.push_back ("prepare"); }
    void reset() override { ++log->resets; pos = 0; log->order.push_back ("reset"); }
    std::unique_ptr<hart::Envelope> copy() const override { return std::unique_ptr<hart::Envelope> (new CounterEnvelope (*this)); }
};

// ---- model of the segmented envelope's curve ----------------------------------------------

struct EnvSpec
{
    struct Seg { double dur; double target; int shape; bool hold; };  // shape: 0 linear, 1 exponential, 2 sCurve
    double start = 0;
    std::vector<Seg> segs;

    hart::SegmentedEnvelope make() const
    {
        hart::SegmentedEnvelope e (start);
        for (auto& s : segs)
        {
            if (s.hold) e.hold (s.dur);
            else e.rampTo (s.target, s.dur, s.shape == 0 ? hart::SegmentedEnvelope::Shape::linear : s.shape == 1 ? hart::SegmentedEnvelope::Shape::exponential : hart::SegmentedEnvelope::Shape::sCurve);
        }
        return e;
    }
    double at (double time) const
    {
        double begin = start;
        for (auto& s : segs)
        {
            if (time < s.dur)
            {
                if (s.hold) return begin;
                const double t = time / s.dur;
                if (s.shape == 0) return begin + (s.target - begin) * t;
                if (s.shape == 2) return begin + (s.target - begin) * (t * t * (3 - 2 * t));
                return begin * std::pow (s.target / begin, t);
            }
            time -= s.dur;
            if (! s.hold) begin = s.target;
        }
        return begin;
    }
    double total() const { double d = 0; for (auto& s : segs) d += s.dur; return d; }
    double span() const
    {
        double lo = start, hi = start;
        for (auto& s : segs) if (! s.hold) { lo = std::min (lo, s.target); hi = std::max (hi, s.target); }
        return hi - lo;
    }
    /// whether `v` is the value of frame k (the curve at k+1 frames from the start), allowing for
    /// rounding of the time by a thousandth of a frame either way, which matters at jumps only
    bool matches (size_t k, double rate, double v) const
    {
        const double tol = 1e-7 * (1.0 + span() + std::abs (start));
        const double dt = 1.0 / rate, t = (double) (k + 1) * dt, e = 0.01 * dt + 1e-9 * t;
        double lo = at (t), hi = lo;
        auto include = [&] (double w) { lo = std::min (lo, w); hi = std::max (hi, w); };
        for (double u : { t - e, t + e }) include (at (std::max (0.0, u)));
        double end = 0, level = start;
        for (auto& s : segs)  // both ends of whatever begins or ends close by
        {
            const double next = s.hold ? level : s.target;
            if (end >= t - e && end <= t + e) include (level);
            end += s.dur;
            if (end >= t - e && end <= t + e) { include (level); include (next); }
            level = next;
        }
        return v >= lo - tol && v <= hi + tol;
    }
    std::string str() const
    {
        std::string s = hv::cat ("env(", start);
        for (auto& g : segs) s += g.hold ? hv::cat (" hold ", g.dur) : hv::cat (" ramp ", g.target, " in ", g.dur, " shape ", g.shape);
        return s + ")";
    }
};

inline EnvSpec genEnv (hv::Rng& r, double totalSeconds, bool positive, double lo, double hi, int maxSegs = 6)
{
    EnvSpec s;
    auto value = [&]
    {
        if (! positive && r.chance (0.15)) return 0.0;
        return r.uni (lo, hi);
    };
    s.start = value();
    double cur = s.start;
    const int n = (int) r.range (0, maxSegs);
    for (int i = 0; i < n; ++i)
    {
        EnvSpec::Seg g;
        g.hold = r.chance (0.3);
        g.dur = r.chance (0.12) ? 0.0 : r.chance (0.2) ? r.uni (0, 3e-5) : r.uni (0, totalSeconds * 1.2 / std::max (1, n) * 1.5);
        g.shape = (int) r.range (0, 2);
        g.target = r.chance (0.1) ? cur : r.chance (0.06) ? cur * (1 + r.uni (-1, 1) * std::pow (10.0, r.uni (-9, -1))) : value();
        if (! g.hold && g.shape == 1 && (cur == 0 || g.target == 0 || (cur < 0) != (g.target < 0))) g.shape = 0;  // undefined for exponentials
        if (g.hold) g.target = cur; else cur = g.target;
        s.segs.push_back (g);
    }
    return s;
}

// ---- failures reported by the run ---------------------------------------------------------

struct Outcome
{
    bool threw = false, assertFailed = false;
    std::string errorType, error;
    std::vector<std::string> expects;
};

template <typename F> Outcome observe (F&& run)
{
    Outcome o;
    hart::ExpectationFailureMessages::clear();
    try { run(); }
    catch (const hart::TestAssertException& e) { o.threw = o.assertFailed = true; o.errorType = "TestAssert"; o.error = e.what(); }
    catch (const hart::SizeError& e) { o.threw = true; o.errorType = "Size"; o.error = e.what(); }
    catch (const hart::ValueError& e) { o.threw = true; o.errorType = "Value"; o.error = e.what(); }
    catch (const hart::StateError& e) { o.threw = true; o.errorType = "State"; o.error = e.what(); }
    catch (const hart::IOError& e) { o.threw = true; o.errorType = "IO"; o.error = e.what(); }
    catch (const hart::SampleRateError& e) { o.threw = true; o.errorType = "SampleRate"; o.error = e.what(); }
    catch (const hart::ChannelLayoutError& e) { o.threw = true; o.errorType = "ChannelLayout"; o.error = e.what(); }
    catch (const hart::HartAssertException& e) { o.threw = true; o.errorType = "HartAssert"; o.error = e.what(); }
    catch (const hart::UnsupportedError& e) { o.threw = true; o.errorType = "Unsupported"; o.error = e.what(); }
    catch (const hart::ConfigurationError& e) { o.threw = true; o.errorType = "Configuration"; o.error = e.what(); }
    catch (const hart::IndexError& e) { o.threw = true; o.errorType = "Index"; o.error = e.what(); }
    catch (const std::exception& e) { o.threw = true; o.errorType = std::string ("std:") + typeid (e).name(); o.error = e.what(); }
    o.expects = hart::ExpectationFailureMessages::get();
    hart::ExpectationFailureMessages::clear();
    return o;
}

template <typename T> struct AudioConfig
{
    double rate = 44100, duration = 0.1;
    size_t block = 1024, in = 1, out = 1, frames = 4410;
    std::string str() const { return hv::cat (hv::typeTag<T>(), " rate=", rate, " dur=", duration, " frames=", frames, " block=", block, " in=", in, " out=", out); }
};

/// a hostile configuration with in * frames limited to `budget` samples
template <typename T> AudioConfig<T> genConfig (hv::Rng& r, size_t budget, bool sameChannels = false, size_t maxChannels = 128)
{
    AudioConfig<T> c;
    c.rate = hv::genRate (r);
    c.in = hv::genChannels (r, maxChannels);
    c.out = sameChannels || r.chance (0.5) ? c.in : hv::genChannels (r, maxChannels);
    if (! r.chance (0.08)) budget = std::max<size_t> (300, budget / 12);
    const size_t maxFrames = std::max<size_t> (1, budget / std::max (c.in, c.out));
    c.frames = hv::genSize (r, maxFrames);
    c.duration = hv::durationFor (r, c.rate, c.frames);
    // recomputed the way the documentation says it, because the product may round
    c.frames = (size_t) std::llround (c.rate * c.duration);
    const int mode = (int) r.range (0, 5);
    if (mode == 0) c.block = c.frames;
    else if (mode == 1) c.block = c.frames + (size_t) r.range (1, 5000);
    else if (mode == 2 && c.frames > 1) c.block = c.frames - 1;
    else if (mode == 3) c.block = std::max<size_t> (1, c.frames / (size_t) r.range (2, 9));
    else c.block = hv::genSize (r, 8192);
    // keeps the number of blocks bounded: the host copies all audio for every block
    c.block = std::max (c.block, std::max<size_t> (1, c.frames / (r.chance (0.1) ? 500 : 100)));
    return c;
}

/// mono audio of more than 2^20 frames in few blocks
template <typename T> AudioConfig<T> genLongConfig (hv::Rng& r)
{
    AudioConfig<T> c;
    c.rate = hv::genRate (r);
    c.in = c.out = 1;
    c.frames = (size_t) r.range (1050000, 3000000);
    c.duration = hv::durationFor (r, c.rate, c.frames);
    c.frames = (size_t) std::llround (c.rate * c.duration);
    c.block = r.chance (0.3) ? c.frames : r.chance (0.5) ? c.frames - 1 : (size_t) r.range (100000, 1100000);
    return c;
}

}  // namespace hp

namespace hp
{

/// sets the options HART reads from its command line
inline void setOptions (const std::vector<std::string>& args)
{
    static bool once = false;
    if (! once) hart::CLIConfig::getInstance().initCommandLineArgs();
    once = true;
    std::vector<const char*> argv { "hart" };
    for (auto& a : args) argv.push_back (a.c_str());
    hart::CLIConfig::getInstance().getCLIApp().parse ((int) argv.size(), argv.data());
}

struct Decimals { int lin = 6, db = 1, sec = 3, hz = 1, rad = 1; };

inline void setDecimals (const Decimals& d)
{
    setOptions ({ "--lin-decimals", std::to_string (d.lin), "--db-decimals", std::to_string (d.db), "--sec-decimals", std::to_string (d.sec),
                  "--hz-decimals", std::to_string (d.hz), "--rad-decimals", std::to_string (d.rad) });
}

inline Decimals genDecimals (hv::Rng& r)
{
    Decimals d;
    if (r.chance (0.3)) return d;
    d.lin = (int) r.range (0, 9);
    d.db = (int) r.range (0, 6);
    d.sec = (int) r.range (0, 8);
    d.hz = (int) r.range (0, 6);
    d.rad = (int) r.range (0, 6);
    return d;
}

/// whether `text` shows `value` with exactly `decimals` decimals; `extra` is allowed on top of the rounding
inline bool shows (const std::string& text, double value, int decimals, double extra)
{
    if (std::isnan (value)) return text.find ("nan") != std::string::npos;
    if (std::isinf (value)) return text.find ("inf") != std::string::npos && (text[0] == '-') == (value < 0);
    char* end = nullptr;
    const double v = std::strtod (text.c_str(), &end);
    if (text.empty() || *end != 0) return false;
    const auto dot = text.find ('.');
    const int got = dot == std::string::npos ? 0 : (int) (text.size() - dot - 1);
    return got == decimals && std::abs (v - value) <= 0.50001 * std::pow (10.0, -decimals) + extra;
}

inline double dbOf (double v) { v = std::abs (v); return v < 1e-6 ? -120.0 : 20.0 * std::log10 (v); }

/// how far the printed decibels may be off because the value is single precision
inline double dbSlack (double v) { return std::abs (std::abs (v) - 1e-6) < 1e-9 ? 1e-2 : 2e-4; }

struct Report
{
    std::vector<std::string> lines;
    std::string text;
    bool hasChannel = false, hasFrame = false, hasTime = false, hasValue = false;
    size_t channel = 0, frame = 0;
    std::string time, value, db;
    std::string field (const std::string& name) const
    {
        for (auto& l : lines) if (l.compare (0, name.size(), name) == 0) return l.substr (name.size());
        return "\x01";
    }
};

inline Report parseReport (const std::string& text)
{
    Report p;
    p.text = text;
    std::istringstream s (text);
    std::string l;
    while (std::getline (s, l)) p.lines.push_back (l);
    const auto ch = p.field ("Channel: "), fr = p.field ("Frame: "), ti = p.field ("Timestamp: "), va = p.field ("Sample value: ");
    if (ch != "\x01") { p.hasChannel = true; p.channel = std::strtoull (ch.c_str(), nullptr, 10); }
    if (fr != "\x01") { p.hasFrame = true; p.frame = std::strtoull (fr.c_str(), nullptr, 10); }
    if (ti != "\x01") { p.hasTime = true; p.time = ti.substr (0, ti.find (' ')); }
    if (va != "\x01")
    {
        p.hasValue = true;
        p.value = va.substr (0, va.find (' '));
        const auto o = va.find ('('), c = va.find (" dB)");
        if (o != std::string::npos && c != std::string::npos) p.db = va.substr (o + 1, c - o - 1);
    }
    return p;
}

}  // namespace hp
