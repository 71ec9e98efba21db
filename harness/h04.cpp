// H04: failure reports parsed and compared with the recorded output.
#include "stock.hpp"
using namespace hp;

template <typename T> static void checkDetails (hv::Ctx& cx, const Report& p, const Planes<T>& out, double rate, const Decimals& d, size_t wantChannel, size_t wantFrame)
{
    const bool complete = p.hasChannel && p.hasFrame && p.hasTime && p.hasValue;
    cx.need (complete, "report-incomplete", "channel, frame, timestamp or value is missing: " + p.text);
    if (! complete) return;
    cx.need (p.channel == wantChannel, "report-channel", hv::cat ("channel ", p.channel, ", want ", wantChannel, ": ", p.text));
    cx.need (p.frame == wantFrame, "report-frame", hv::cat ("frame ", p.frame, ", want ", wantFrame, ": ", p.text));
    const double t = (double) wantFrame / rate;
    cx.need (shows (p.time, t, d.sec, 1e-9 * (1 + t)), "report-time", hv::cat ("timestamp ", p.time, ", want ", t, " with ", d.sec, " decimals: ", p.text));
    const double v = (double) out[wantChannel][wantFrame];
    cx.need (shows (p.value, v, d.lin, 1e-9), "report-value", hv::cat ("sample value ", p.value, ", want ", v, " with ", d.lin, " decimals: ", p.text));
    cx.need (shows (p.db, dbOf (v), d.db, dbSlack (v)), "report-db", hv::cat ("sample value in dB ", p.db, ", want ", dbOf (v), " with ", d.db, " decimals: ", p.text));
}

static std::string genLabel (hv::Rng& r)
{
    if (r.chance (0.3)) return "";
    return r.pick (std::vector<std::string> { "Attenuation", "Envelope B", "a \"quoted\" label", "x", "label with: colon, and 100%s", "Channel of doom", std::string (300, 'L'), "Frame: 7", " ", "expectFalse() failed", "\xc3\xa4\xc3\xb6", "0", "back\\slash", "tab\there", std::string (5000, 'x') });
}

template <typename T> static void headOk (hv::Ctx& cx, const Report& p, const std::string& kind, const std::string& label, const std::string& condition)
{
    cx.need (! p.lines.empty() && p.lines[0].compare (0, kind.size(), kind) == 0, "report-kind", "want " + kind + ": " + p.text);
    if (! label.empty()) cx.need (! p.lines.empty() && p.lines[0].find ('"' + label + '"') != std::string::npos, "report-label", "the label is missing: " + p.text);
    else cx.need (! p.lines.empty() && p.lines[0].find ('"') == std::string::npos, "report-no-label", "a label out of nowhere: " + p.text);
    cx.need (p.text.find (condition) != std::string::npos, "report-condition", "the condition is missing, want " + condition + ": " + p.text);
}

template <typename T> static void probes (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const bool isLong = r.chance (0.006);
    auto c = isLong ? genLongConfig<T> (r) : genConfig<T> (r, 60000, false, r.chance (0.05) ? 128 : 12);
    if (cx.index == 1)
    {
        // more frames than single precision can number
        c = genLongConfig<T> (r);
        c.rate = 1000;
        c.frames = ((size_t) 1 << 24) + 4002;
        c.duration = (double) c.frames / c.rate;
        c.block = c.frames;
        cx.saw ("very long audio");
    }
    if (c.frames == 0) return;
    if (isLong) cx.saw ("long audio");
    auto dec = genDecimals (r);
    if (cx.index == 1) dec.sec = 6;
    setDecimals (dec);
    const std::string label = genLabel (r);
    Planes<T> in = randomPlanes<T> (r, c.in, c.frames, r.pick<double> ({ 1.0, 1e-5, 3.0 }));
    if (r.chance (0.2)) for (auto& p : in) std::fill (p.begin(), p.end(), (T) 0);
    Planes<T> out (c.out);
    for (size_t ch = 0; ch < c.out; ++ch) out[ch] = in[ch % c.in];

    struct Want { std::string name; bool isAssert, shouldPass, perBlock; size_t ch, f; };
    std::vector<Want> wants;
    const int n = (int) r.range (1, 4);
    const bool withAssert = r.chance (0.4);
    hart::AudioTestBuilder<T> b (RecordingDSP<T> {});
    b.withSampleRate (c.rate).withBlockSize (c.block).withDuration (c.duration).withInputChannels (c.in).withOutputChannels (c.out).withInputSignal (DataSignal<T> (in)).withLabel (label);
    if (label.empty() && r.chance (0.5)) b.withLabel ("");
    if (r.chance (0.15)) { b.withLabel ("TheReplacedLabel").withLabel (label); cx.saw ("replaced labels"); }
    for (int i = 0; i < n; ++i)
    {
        Want w;
        w.name = hv::cat ("Probe", i);
        w.isAssert = withAssert && i == n - 1;
        w.shouldPass = r.chance (0.8);
        w.perBlock = r.chance (0.6);
        w.ch = (size_t) r.range (0, (int64_t) c.out - 1);
        w.f = r.pick<size_t> ({ 0, c.frames - 1, (size_t) r.range (0, (int64_t) c.frames - 1), (size_t) r.range (0, (int64_t) c.frames - 1), (c.frames - 1) / c.block * c.block });
        ProbeMatcher<T> m;
        m.name = w.name;
        m.perBlock = w.perBlock;
        if (cx.index == 1 && i == 0) { w.shouldPass = true; w.f = c.frames - 1; }
        const size_t wc = w.ch, wf = w.f;
        if (w.shouldPass) m.bad = [=] (size_t ch, size_t f, T) { return ch == wc && f == wf; };
        if (w.isAssert) { if (w.shouldPass) b.assertTrue (m); else b.assertFalse (m); }
        else { if (w.shouldPass) b.expectTrue (m); else b.expectFalse (m); }
        wants.push_back (w);
    }
    cx.describe = hv::cat (c.str(), " label=", label.substr (0, 20), " checks=", n, " assert=", withAssert, " decimals ", dec.lin, dec.db, dec.sec);
    cx.nontrivial (cx.describe);
    const auto o = observe ([&] { b.process(); });
    std::vector<std::string> texts = o.expects;
    if (o.threw) texts.push_back (o.error);
    size_t judged = 0;
    for (auto& w : wants)
    {
        const std::string cond = w.name + (w.perBlock ? " (block)" : " (full)");
        for (auto& t : texts)
        {
            if (t.find (w.name + " (") == std::string::npos) continue;
            const auto p = parseReport (t);
            headOk<T> (cx, p, std::string (w.isAssert ? "assert" : "expect") + (w.shouldPass ? "True()" : "False()"), label, cond);
            if (w.shouldPass)
            {
                checkDetails (cx, p, out, c.rate, dec, w.ch, w.f);
                cx.need (t.find ("explanation of " + w.name) != std::string::npos, "report-explanation", "the matcher's explanation is missing: " + t);
            }
            else cx.need (! p.hasChannel && ! p.hasFrame && ! p.hasTime && ! p.hasValue, "inverted-details", "details of a failure that is none: " + t);
            ++judged;
        }
    }
    cx.need (judged == texts.size() && (withAssert || judged == wants.size()), "report-count", hv::cat (judged, " of ", texts.size(), " reports for ", wants.size(), " failing checks"));
    cx.saw ("reports", judged);
    if (cx.index < 10 && ! texts.empty()) cx.sample (texts[0]);
}

template <typename T> static void stock (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const bool isLong = r.chance (0.004);
    auto c = isLong ? genLongConfig<T> (r) : genConfig<T> (r, 20000, true, r.chance (0.05) ? 128 : 6);
    if (c.frames == 0) return;
    if (isLong) cx.saw ("long audio");
    const auto dec = genDecimals (r);
    setDecimals (dec);
    const double amp = r.pick<double> ({ 0.5, 1e-4, 2.0 });
    Planes<T> audio = randomPlanes<T> (r, c.in, c.frames, amp);
    const size_t wc = (size_t) r.range (0, (int64_t) c.in - 1);
    const size_t wf = r.pick<size_t> ({ 0, c.frames - 1, (size_t) r.range (0, (int64_t) c.frames - 1), (size_t) r.range (0, (int64_t) c.frames - 1) });
    const int kind = (int) r.range (0, 2);
    const std::string label = genLabel (r);
    hart::AudioTestBuilder<T> b (RecordingDSP<T> {});
    double expected = 0, level = 0;
    std::string name;
    if (kind == 0)
    {
        Planes<T> ref = audio;
        ref[wc][wf] += (T) (amp * (r.chance (0.5) ? 0.5 : -0.7));
        expected = (double) ref[wc][wf];
        b.expectTrue (hart::EqualsTo<T> (DataSignal<T> (ref), amp * 0.1));
        name = "EqualsTo (";
    }
    else
    {
        audio[wc][wf] = (T) (amp * 1.5 * (r.chance (0.5) ? 1 : -1));
        level = (double) std::abs (audio[wc][wf]);
        if (kind == 1) b.expectTrue (hart::PeaksAt<T> (20 * std::log10 (amp * 3), amp * 0.01));
        else b.expectTrue (hart::PeaksBelow<T> (20 * std::log10 (amp * 1.2), amp * 0.01));
        name = kind == 1 ? "PeaksAt (" : "PeaksBelow (";
    }
    b.withSampleRate (c.rate).withBlockSize (c.block).withDuration (c.duration).withInputChannels (c.in).withOutputChannels (c.in).withInputSignal (DataSignal<T> (audio)).withLabel (label);
    cx.describe = hv::cat (name, " ", c.str(), " at channel ", wc, " frame ", wf, " amp ", amp);
    cx.nontrivial (cx.describe);
    const auto o = observe ([&] { b.process(); });
    cx.need (o.expects.size() == 1 && ! o.threw, "stock-report-count", hv::cat (o.expects.size(), " reports; ", o.error));
    if (o.expects.size() != 1) return;
    const auto p = parseReport (o.expects[0]);
    headOk<T> (cx, p, "expectTrue()", label, name);
    checkDetails (cx, p, audio, c.rate, dec, wc, wf);
    auto num = [&] (const std::string& text, const std::string& before, const std::string& end) -> std::string
    {
        const auto a = text.find (before);
        if (a == std::string::npos) return "";
        const auto s = a + before.size(), e = text.find (end, s);
        return text.substr (s, e - s);
    };
    if (kind == 0)
    {
        const double dif = std::abs (expected - (double) audio[wc][wf]);
        const auto ev = num (p.text, "Expected sample value: ", " "), dv = num (p.text, "difference: ", " ");
        cx.need (shows (ev, expected, dec.lin, 1e-9 + 1e-7 * std::abs (expected)), "expected-value", hv::cat ("expected value ", ev, ", want ", expected, ": ", p.text));
        cx.need (shows (dv, dif, dec.lin, 1e-9 + 2e-7 * (std::abs (expected) + dif)), "difference", hv::cat ("difference ", dv, ", want ", dif, ": ", p.text));
        const auto edb = num (p.text.substr (std::min (p.text.size(), p.text.find ("Expected sample value: "))), "(", " dB)");
        cx.need (shows (edb, dbOf (expected), dec.db, dbSlack (expected)), "expected-db", hv::cat ("expected level ", edb, ", want ", dbOf (expected), ": ", p.text));
    }
    else
    {
        const auto db = num (p.text, kind == 1 ? "Observed audio peaks at " : "Observed audio peaks at at least ", " dB");
        cx.need (shows (db, dbOf (level), dec.db, dbSlack (level)), "observed-peak", hv::cat ("observed peak ", db, ", want ", dbOf (level), ": ", p.text));
    }
    cx.saw ("stock reports");
    if (cx.index < 10) cx.sample (p.text);
}

template <typename T> static void one (hv::Ctx& cx) { if (cx.rng.chance (0.6)) probes<T> (cx); else stock<T> (cx); }

void hv_case (hv::Ctx& cx)
{
    if (cx.index == 1) probes<float> (cx);
    else if (cx.index % 2) one<float> (cx); else one<double> (cx);
}
