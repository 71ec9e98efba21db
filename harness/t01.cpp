// T01: text representations, read back and compared with the arguments.
#include "stock.hpp"

using namespace hp;

struct Arg
{
    enum Kind { number, word, path, signal, integer } kind;
    double value = 0, slack = 0;
    int decimals = 0;
    std::string unit, text;
};

static Arg num (double v, int decimals, const std::string& unit, double slack = 0) { Arg a; a.kind = Arg::number; a.value = v; a.decimals = decimals; a.unit = unit; a.slack = slack + 1e-12 * std::abs (v); return a; }
static Arg word (const std::string& w) { Arg a; a.kind = Arg::word; a.text = w; return a; }

/// "Name (a, b, c)" -> name and arguments, split outside of quotes and parentheses
struct Parsed { std::string name, error; std::vector<std::string> args; };

static std::string trim (const std::string& s)
{
    const auto a = s.find_first_not_of (" \t"), b = s.find_last_not_of (" \t");
    return a == std::string::npos ? "" : s.substr (a, b - a + 1);
}

static std::vector<std::string> splitOutside (const std::string& s, const std::string& by)
{
    std::vector<std::string> out { "" };
    int depth = 0;
    bool quoted = false;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] == '"') quoted = ! quoted;
        if (! quoted && s[i] == '(') ++depth;
        if (! quoted && s[i] == ')') --depth;
        if (! quoted && depth == 0 && s.compare (i, by.size(), by) == 0) { out.emplace_back(); i += by.size() - 1; continue; }
        out.back() += s[i];
    }
    return out;
}

static Parsed parse (const std::string& s)
{
    Parsed p;
    const auto open = s.find ('(');
    if (open == std::string::npos) { p.name = trim (s); return p; }
    p.name = trim (s.substr (0, open));
    const std::string t = trim (s);
    if (t.back() != ')') { p.error = "no closing parenthesis"; return p; }
    const std::string inside = t.substr (t.find ('(') + 1, t.size() - t.find ('(') - 2);
    if (! trim (inside).empty()) for (auto& a : splitOutside (inside, ",")) p.args.push_back (trim (a));
    return p;
}

struct Text
{
    std::string name;
    std::vector<Arg> args;
    std::vector<Text> chain;
};

static std::string compare (const std::string& text, const Text& want);

static std::string compareOne (const std::string& text, const Text& want)
{
    const Parsed p = parse (text);
    if (! p.error.empty()) return p.error;
    if (p.name != want.name) return "its name is '" + p.name + "' instead of " + want.name;
    if (p.args.size() != want.args.size()) return hv::cat (p.args.size(), " arguments instead of ", want.args.size());
    for (size_t i = 0; i < p.args.size(); ++i)
    {
        const auto& a = want.args[i];
        const auto& t = p.args[i];
        const std::string which = hv::cat ("argument ", i + 1, " '", t, "' ");
        if (a.kind == Arg::word) { if (t.size() < a.text.size() || t.compare (t.size() - a.text.size(), a.text.size(), a.text) != 0) return which + "is not " + a.text; }
        else if (a.kind == Arg::path) { if (t != "\"" + a.text + "\"") return which + "is not the path " + a.text; }
        else if (a.kind == Arg::signal) { const auto e = compare (t, want.chain[0]); if (! e.empty()) return "reference: " + e; }
        else if (a.kind == Arg::integer) { if (t != a.text) return which + "is not " + a.text; }
        else
        {
            std::string n = t, unit;
            const auto end = n.find_first_not_of ("+-0123456789.");
            if (end != std::string::npos && std::isfinite (a.value)) { unit = n.substr (end); n = n.substr (0, end); }
            else if (! std::isfinite (a.value)) { const auto u = n.find ('_'); if (u != std::string::npos) { unit = n.substr (u); n = n.substr (0, u); } }
            while (! unit.empty() && (unit[0] == '_' || unit[0] == ' ')) unit = unit.substr (1);
            if (unit != a.unit) return which + "has the unit '" + unit + "' instead of '" + a.unit + "'";
            double value = a.value;
            if (a.unit == "rad") value += hart::twoPi * std::round ((std::atof (n.c_str()) - value) / hart::twoPi);  // a phase may be shown wrapped
            if (! shows (n, value, a.decimals, a.slack + (a.unit == "rad" ? 1e-6 : 0))) return which + hv::cat ("does not show ", a.value, " with ", a.decimals, " decimals");
        }
    }
    return "";
}

static std::string compare (const std::string& text, const Text& want)
{
    if (want.name.empty()) return "";
    const auto parts = splitOutside (text, ">>");
    const bool reference = ! want.args.empty() && want.args[0].kind == Arg::signal;
    const size_t links = reference ? 0 : want.chain.size();
    if (parts.size() != links + 1) return hv::cat (parts.size() - 1, " effects instead of ", links, " in '", text, "'");
    const auto e = compareOne (parts[0], want);
    if (! e.empty()) return e + " in '" + text + "'";
    for (size_t i = 0; i < links; ++i)
    {
        const auto f = compareOne (parts[i + 1], want.chain[i]);
        if (! f.empty()) return hv::cat ("effect ", i + 1, ": ", f, " in '", text, "'");
    }
    return "";
}

static double number (hv::Rng& r, double hi)
{
    switch ((int) r.range (0, 5))
    {
        case 0: return r.pick ({ 1.0, 2.0, 0.5, 100.0, 1000.0, 0.1, 20.0, 440.0, 20000.0, 3.0 }) <= hi ? r.pick ({ 1.0, 2.0, 0.5, 0.1, 3.0 }) : hi / 2;
        case 1: return r.uni (0, hi);
        case 2: return std::round (r.uni (0, hi) * 8) / 8;   // ties of the rounding
        case 3: return (double) r.range (1, (int64_t) std::max (1.0, hi));
        case 4: return std::pow (10.0, r.uni (-9, std::log10 (hi)));
        default: return r.uni (0, 1);
    }
}
static double positive (hv::Rng& r, double hi) { for (;;) { const double v = number (r, hi); if (v > 0) return v; } }
static double any (hv::Rng& r, double hi) { return r.chance (0.05) ? r.pick ({ 0.0, -0.0 }) : number (r, hi) * (r.chance (0.5) ? -1 : 1); }

// participants that use the library's own words for the text
using hart::Signal;
using hart::DSP;
using hart::Matcher;
template <typename SampleType> struct PlainSignal : hart::Signal<SampleType>
{
    void prepare (double, size_t, size_t) override {}
    void reset() override {}
    void renderNextBlock (hart::AudioBuffer<SampleType>& b) override { for (size_t c = 0; c < b.getNumChannels(); ++c) for (size_t f = 0; f < b.getNumFrames(); ++f) b[c][f] = (SampleType) (0.25 + 0.5 * (double) f / (double) b.getNumFrames()); }
    HART_SIGNAL_DEFINE_COPY_AND_MOVE (PlainSignal)
    HART_DEFINE_GENERIC_REPRESENT (PlainSignal)
};
template <typename SampleType> struct PlainEffect : hart::DSP<SampleType>
{
    double value = 0;
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<SampleType>& i, hart::AudioBuffer<SampleType>& o, const hart::EnvelopeBuffers&) override { for (size_t c = 0; c < o.getNumChannels(); ++c) for (size_t f = 0; f < o.getNumFrames(); ++f) o[c][f] = c < i.getNumChannels() ? i[c][f] : SampleType (0); }
    void reset() override {}
    void setValue (int, double v) override { value = v; }
    double getValue (int) const override { return value; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    HART_DSP_DEFINE_COPY_AND_MOVE (PlainEffect)
    HART_DEFINE_GENERIC_REPRESENT (PlainEffect)
};
template <typename SampleType> struct PlainMatcher : hart::Matcher<SampleType>
{
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<SampleType>&) override { return true; }
    void reset() override {}
    bool canOperatePerBlock() override { return true; }
    hart::MatcherFailureDetails getFailureDetails() const override { return {}; }
    HART_MATCHER_DEFINE_COPY_AND_MOVE (PlainMatcher)
    HART_DEFINE_GENERIC_REPRESENT (PlainMatcher)
};

template <typename T> static std::unique_ptr<hart::DSP<T>> makeFx (hv::Rng& r, const Decimals& d, Text& t)
{
    const int kind = r.chance (0.08) ? 9 : (int) r.range (0, 2);
    std::unique_ptr<hart::DSP<T>> fx;
    if (kind == 9) { fx.reset (new PlainEffect<T>()); t.name = "PlainEffect"; }
    else if (kind == 0)
    {
        const bool def = r.chance (0.1);
        const double v = def ? 0.0 : r.chance (0.05) ? -hart::inf : any (r, 120);
        fx.reset (def ? new hart::GainDb<T>() : new hart::GainDb<T> (v));
        t.name = "GainDb";
        t.args = { num (v, d.db, "dB", 1e-7 * std::abs (v)) };
        if (r.chance (0.3)) fx->setValue (0, any (r, 60));
    }
    else if (kind == 1)
    {
        const bool def = r.chance (0.1);
        const double v = def ? 1.0 : any (r, 10);
        fx.reset (def ? new hart::GainLinear<T>() : new hart::GainLinear<T> (v));
        t.name = "GainLinear";
        t.args = { num (v, d.lin, "", 1e-7 * std::abs (v)) };
        if (r.chance (0.3)) fx->setValue (0, any (r, 2));
    }
    else
    {
        const double v = any (r, 60);
        fx.reset (new hart::HardClip<T> (v));
        t.name = "HardClip";
        t.args = { num (v, d.db, "dB", 1e-7 * std::abs (v)) };
        if (r.chance (0.3)) fx->setValue (0, any (r, 60));
    }
    if (kind < 2 && r.chance (0.2)) fx->withEnvelope (0, EnvSpec().make());
    return fx;
}

template <typename T> static std::unique_ptr<hart::Signal<T>> makeSignal (hv::Rng& r, const Decimals& d, Text& t, const std::string& scratch, int maxChain)
{
    using S = std::unique_ptr<hart::Signal<T>>;
    S s;
    using Sweep = hart::SineSweep<T>;
    const int kind = r.chance (0.08) ? 9 : (int) r.range (0, 5);
    if (kind == 9) { s.reset (new PlainSignal<T>()); t.name = "PlainSignal"; }
    else if (kind == 0)
    {
        const int n = (int) r.range (0, 2);
        const double f = n > 0 ? positive (r, 40000) : 1000.0, p = n > 1 ? any (r, 20) : 0.0;
        s.reset (n == 0 ? new hart::SineWave<T>() : n == 1 ? new hart::SineWave<T> (f) : new hart::SineWave<T> (f, p));
        t.name = "SineWave";
        t.args = { num (f, d.hz, "Hz"), num (p, d.rad, "rad") };
    }
    else if (kind == 1) { s.reset (new hart::Silence<T>()); t.name = "Silence"; }
    else if (kind == 2)
    {
        const auto seed = (uint32_t) (r.chance (0.3) ? (uint64_t) r.range (0, 100) : r.u64());
        s.reset (new hart::WhiteNoise<T> (seed));
        t.name = "WhiteNoise";
        Arg a; a.kind = Arg::integer; a.text = std::to_string (seed);
        t.args = { a };
    }
    else if (kind <= 4)
    {
        double dur = positive (r, 100), f1 = positive (r, 40000), f2 = positive (r, 40000), phase = any (r, 20);
        bool log = r.chance (0.5), loop = r.chance (0.5);
        Sweep w (dur, f1, f2, log ? Sweep::SweepType::log : Sweep::SweepType::linear, loop ? Sweep::Loop::yes : Sweep::Loop::no, phase);
        std::unique_ptr<Sweep> current (new Sweep (w));
        for (int i = (int) r.range (0, 3); i > 0; --i)
        {
            const int v = (int) r.range (0, 5);
            if (v == 0) { dur = positive (r, 100); current.reset (new Sweep (current->withDuration (dur))); }
            else if (v == 1) { f1 = positive (r, 40000); current.reset (new Sweep (current->withStartFrequency (f1))); }
            else if (v == 2) { f2 = positive (r, 40000); current.reset (new Sweep (current->withEndFrequency (f2))); }
            else if (v == 3) { log = ! log; current.reset (new Sweep (current->withType (log ? Sweep::SweepType::log : Sweep::SweepType::linear))); }
            else if (v == 4) { loop = ! loop; current.reset (new Sweep (current->withLoop (loop ? Sweep::Loop::yes : Sweep::Loop::no))); }
            else { phase = any (r, 20); current.reset (new Sweep (current->withPhase (phase))); }
        }
        s = std::move (current);
        t.name = "SineSweep";
        t.args = { num (dur, d.sec, "s"), num (f1, d.hz, "Hz"), num (f2, d.hz, "Hz"), word (log ? "SweepType::log" : "SweepType::linear"), word (loop ? "Loop::yes" : "Loop::no"), num (phase, d.rad, "rad") };
    }
    else
    {
        const std::string name = r.pick ({ "t01.wav", "with space.wav", "comma, (paren) >> x.wav", "\xc3\xbc.wav", "a.b.c" });
        const std::string path = scratch + "/" + name;
        makeFloatWav (r, path, 2, 20, 44100);
        const bool loop = r.chance (0.5);
        s.reset (new hart::WavFile<T> (path, loop ? hart::WavFile<T>::Loop::yes : hart::WavFile<T>::Loop::no));
        t.name = "WavFile";
        Arg a; a.kind = Arg::path; a.text = path;
        t.args = { a, word (loop ? "Loop::yes" : "Loop::no") };
    }
    for (int i = (int) r.range (0, maxChain); i > 0; --i)
    {
        Text fx;
        s->followedBy (makeFx<T> (r, d, fx));
        t.chain.push_back (fx);
    }
    return s;
}

template <typename T> static std::unique_ptr<hart::Matcher<T>> makeMatcher (hv::Rng& r, const Decimals& d, Text& t, const std::string& scratch)
{
    if (r.chance (0.05)) { t.name = "PlainMatcher"; return std::unique_ptr<hart::Matcher<T>> (new PlainMatcher<T>()); }
    const int kind = (int) r.range (0, 2);
    const bool def = r.chance (0.2);
    const double db = any (r, 100), tol = def ? (kind == 0 ? 1e-5 : 1e-3) : positive (r, 2);
    std::unique_ptr<hart::Matcher<T>> m;
    const Arg toleranceArg = num (tol, d.lin, "", 1e-7 * tol);
    if (kind == 0)
    {
        Text ref;
        auto s = makeSignal<T> (r, d, ref, scratch, 3);
        m.reset (def ? new hart::EqualsTo<T> (*s) : new hart::EqualsTo<T> (*s, tol));
        t.name = "EqualsTo";
        Arg a; a.kind = Arg::signal;
        t.args = { a, toleranceArg };
        t.chain = { ref };
        return m;
    }
    t.name = kind == 1 ? "PeaksAt" : "PeaksBelow";
    t.args = { num (db, d.db, "dB", 1e-7 * std::abs (db)), toleranceArg };
    if (kind == 1) m.reset (def ? new hart::PeaksAt<T> (db) : new hart::PeaksAt<T> (db, tol));
    else m.reset (def ? new hart::PeaksBelow<T> (db) : new hart::PeaksBelow<T> (db, tol));
    return m;
}

template <typename O> static std::string textOf (const O& o) { std::ostringstream s; s << o; return s.str(); }

/// the text on a stream that has seen other things
template <typename O> static std::string textAfter (hv::Rng& r, const O& o)
{
    std::ostringstream s;
    for (int i = (int) r.range (1, 3); i > 0; --i)
        switch ((int) r.range (0, 6))
        {
            case 0: s << std::scientific << 1.5; break;
            case 1: s << std::hexfloat << 2.5; break;
            case 2: s << std::setprecision ((int) r.range (0, 12)) << 3.25; break;
            case 3: s << std::fixed << std::setprecision ((int) r.range (0, 12)) << 3.25; break;
            case 4: s << std::defaultfloat << 1e30; break;
            case 5: s << hart::SineSweep<float>() << hart::GainDb<double> (3.0); break;
            default: s << hart::linPrecision << 4.0 << hart::secPrecision;
        }
    s.str ("");
    s << o;
    return s.str();
}

template <typename T> static void run (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const Decimals d = genDecimals (r);
    setDecimals (d);
    Text want;
    std::string text, after;
    const int what = (int) r.range (0, 2);
    auto judge = [&] (const std::string& when, const std::string& got)
    {
        const auto e = compare (got, want);
        if (! e.empty()) cx.viol ("text-" + want.name + (when.empty() ? "" : "-" + when), e);
    };
    if (what == 0)
    {
        auto s = makeSignal<T> (r, d, want, cx.scratch, 4);
        text = textOf (*s);
        after = textAfter (r, *s);
        judge ("", text);
        judge ("copy", textOf (*s->copy()));
        // rendered with and without being represented
        const double rate = want.name == "WavFile" ? 44100 : hv::genRate (r);
        const size_t channels = want.name == "WavFile" ? 2 : (size_t) r.range (1, 4), n = (size_t) r.range (1, 200);
        auto twin = s->copy();
        start (*s, rate, channels, n);
        start (*twin, rate, channels, n);
        for (int i = 0; i < 3; ++i)
        {
            const auto a = planesOf (renderBlock (*twin, channels, n));
            std::ostringstream o;
            o << *s;
            if (o.str() != text) cx.viol ("text-changes-" + want.name, "the text changes while the signal is rendered: '" + o.str() + "' instead of '" + text + "'");
            const auto b = planesOf (renderBlock (*s, channels, n));
            if (hashOf (a) != hashOf (b)) { cx.viol ("represent-has-effect-" + want.name, diff (b, a, 0)); break; }
        }
        cx.saw ("signals");
        if (want.chain.size() > 1) cx.saw ("chains");
    }
    else if (what == 1)
    {
        auto f = makeFx<T> (r, d, want);
        const double v = f->getValue (0);
        text = textOf (*f);
        after = textAfter (r, *f);
        judge ("", text);
        judge ("copy", textOf (*f->copy()));
        f->resetWithEnvelopes();
        f->prepareWithEnvelopes (44100, 1, 1, 8);
        hart::AudioBuffer<T> b (1, 8), o (1, 8);
        f->processWithEnvelopes (b, o);
        judge ("used", textOf (*f));
        if (! sameBits (v, f->getValue (0))) cx.viol ("represent-has-effect-" + want.name, "the value changed");
        cx.saw ("effects");
    }
    else
    {
        auto m = makeMatcher<T> (r, d, want, cx.scratch);
        text = textOf (*m);
        after = textAfter (r, *m);
        judge ("", text);
        judge ("copy", textOf (*m->copy()));
        if (want.name != "EqualsTo" || want.chain[0].name != "WavFile")
        {
            m->prepare (44100, 2, 16);
            m->reset();
            const auto p = randomPlanes<T> (r, 2, 16, 2);
            const bool first = m->match (bufferOf (p));
            judge ("used", textOf (*m));
            m->reset();
            if (m->match (bufferOf (p)) != first) cx.viol ("represent-has-effect-" + want.name, "the verdict changed");
        }
        cx.saw ("matchers");
    }
    if (after != text) cx.viol ("depends-on-stream-" + want.name, "'" + after + "' instead of '" + text + "'");
    cx.saw ("kind " + want.name);
    cx.saw ("texts");
    cx.describe = text;
    cx.nontrivial (text + hv::cat (d.lin, d.db, d.sec, d.hz, d.rad));
    if (cx.index % 700 == 0) cx.sample (text);
}

void hv_case (hv::Ctx& cx)
{
    if (cx.rng.chance (0.5)) run<float> (cx); else run<double> (cx);
}
