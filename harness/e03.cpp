// E03: attaching, replacing, copying and moving automation behaves as documented. Random programs
// over several effects are followed by a model that knows which curve each parameter should have.
#include "stock.hpp"
using namespace hp;

template <typename T> struct Slot
{
    std::unique_ptr<hart::DSP<T>> dsp;
    int kind = 0;                        // 0 probe, 1 GainDb, 2 GainLinear, 3 HardClip
    std::set<int> automatable;
    std::map<int, double> model;         // the base of the counting envelope of each automated parameter
    LogPtr<T> log;
    bool movedFrom = false;
};

template <typename T> static Slot<T> makeSlot (hv::Rng& r)
{
    Slot<T> s;
    s.kind = r.chance (0.6) ? 0 : (int) r.range (1, 3);
    s.log = newLog<T>();
    if (s.kind == 0)
    {
        auto* d = new RecordingDSP<T> (s.log);
        for (int i = 0; i < 6; ++i) if (r.chance (0.6)) s.automatable.insert (i);
        if (r.chance (0.2)) s.automatable.insert (-1);
        d->automatable = s.automatable;
        s.dsp.reset (d);
    }
    else if (s.kind == 1) s.dsp.reset (new hart::GainDb<T> (r.uni (-6, 6)));
    else if (s.kind == 2) s.dsp.reset (new hart::GainLinear<T> (r.uni (-1, 1)));
    else s.dsp.reset (new hart::HardClip<T> (20.0));
    if (s.kind == 1 || s.kind == 2) s.automatable.insert (0);
    return s;
}

static double genBase (hv::Rng& r, int kind)
{
    if (kind == 1) return -60.0 - (double) r.range (0, 40);  // the counting envelope counts up in dB
    return (double) r.range (1, 1000) * 1000;
}

/// one effect being rendered in steps, while what arrives is compared with the model
template <typename T> struct Rendering
{
    Slot<T>& s;
    hv::Ctx& cx;
    std::string when;
    size_t block, total, at = 0;
    Rendering (hv::Ctx& c, Slot<T>& slot, const std::string& w) : s (slot), cx (c), when (w), block ((size_t) c.rng.range (1, 40)), total ((size_t) c.rng.range (1, 60)) {}

    bool begin()
    {
        if (s.log) s.log->clear();
        if (s.kind == 0) static_cast<RecordingDSP<T>*> (s.dsp.get())->blockKeys.clear();
        for (int id = -1; id < 8; ++id)
            if (s.dsp->hasEnvelopeFor (id) != (s.model.count (id) != 0))
            {
                cx.viol ("has-envelope", hv::cat (when, ": hasEnvelopeFor (", id, ") says ", s.dsp->hasEnvelopeFor (id) ? "yes" : "no", ", automation was ", s.model.count (id) ? "" : "not ", "attached"));
                return false;
            }
        if (cx.rng.chance (0.7)) { s.dsp->resetWithEnvelopes(); s.dsp->prepareWithEnvelopes (44100, 1, 1, block); }
        else { s.dsp->prepareWithEnvelopes (44100, 1, 1, block); s.dsp->resetWithEnvelopes(); }
        at = 0;
        return true;
    }
    bool step()
    {
        const size_t n = std::min (total - at, cx.rng.chance (0.5) ? block : (size_t) cx.rng.range (1, (int64_t) block));
        hart::AudioBuffer<T> in (1, n), out (1, n);
        for (size_t f = 0; f < n; ++f) in[0][f] = (T) 0.5;
        s.dsp->processWithEnvelopes (in, out);
        if ((s.kind == 1 || s.kind == 2) && s.model.count (0))
            for (size_t f = 0; f < n; ++f)
            {
                const double v = s.model[0] + (double) (at + f), g = s.kind == 1 ? std::pow (10.0, v / 20) : v, got = (double) out[0][f];
                if (! (std::abs (got - 0.5 * g) <= 1e-5 * std::abs (g))) { cx.viol ("stock-automation", hv::cat (when, ": frame ", at + f, " has gain ", got / 0.5, " instead of ", g)); return false; }
            }
        at += n;
        return true;
    }
    bool end()
    {
        if (s.kind == 0)
        {
            auto* p = static_cast<RecordingDSP<T>*> (s.dsp.get());
            std::set<int> want;
            for (auto& m : s.model) want.insert (m.first);
            for (auto& k : p->blockKeys) if (k != want) { cx.viol ("keys", hv::cat (when, ": automation of ", k.size(), " parameters arrived instead of ", want.size())); return false; }
            auto& log = *p->log;
            for (auto& m : s.model)
            {
                const auto& v = log.envelopes[m.first];
                if (v.size() != total) { cx.viol ("lost", hv::cat (when, ": ", v.size(), " values of parameter ", m.first, " arrived instead of ", total)); return false; }
                for (size_t i = 0; i < total; ++i)
                    if (v[i] != m.second + (double) i) { cx.viol ("wrong-envelope", hv::cat (when, ": parameter ", m.first, " frame ", i, " has ", v[i], " instead of ", m.second + (double) i)); return false; }
            }
        }
        cx.saw ("renderings");
        return true;
    }
};

template <typename T> static bool check (hv::Ctx& cx, Slot<T>& s, const std::string& when)
{
    Rendering<T> x (cx, s, when);
    if (! x.begin()) return false;
    while (x.at < x.total) if (! x.step()) return false;
    return x.end();
}

/// two effects rendered by turns: neither may feel the other
template <typename T> static bool together (hv::Ctx& cx, Slot<T>& a, Slot<T>& b, const std::string& when)
{
    Rendering<T> x (cx, a, when + ", beside another effect"), y (cx, b, when + ", beside another effect");
    if (! x.begin() || ! y.begin()) return false;
    while (x.at < x.total || y.at < y.total)
    {
        auto& z = x.at == x.total ? y : y.at == y.total ? x : cx.rng.chance (0.5) ? x : y;
        if (! z.step()) return false;
    }
    cx.saw ("renderings by turns");
    return x.end() && y.end();
}

template <typename T> static void program (hv::Ctx& cx)
{
    auto& r = cx.rng;
    const size_t before = Ledger::live().size();
    {
        std::vector<Slot<T>> slots;
        std::string text;
        for (int i = 0; i < 3; ++i) slots.push_back (makeSlot<T> (r));
        const int ops = (int) r.range (5, 25);
        for (int i = 0; i < ops; ++i)
        {
            auto& s = slots[(size_t) r.range (0, (int64_t) slots.size() - 1)];
            if (s.movedFrom) { s = makeSlot<T> (r); continue; }
            const int op = (int) r.range (0, 8);
            switch (op)
            {
                case 0: case 1: case 2: case 3:  // attach or replace
                {
                    const int id = (int) r.range (-1, 6);
                    const double base = genBase (r, s.kind);
                    const bool ok = s.automatable.count (id) != 0;
                    const bool lvalue = r.chance (0.5);
                    const auto o = observe ([&]
                    {
                        if (lvalue) { CounterEnvelope e (base); s.dsp->withEnvelope (id, e); e.renderNextBlock (5); }
                        else s.dsp->withEnvelope (id, CounterEnvelope (base));
                    });
                    text += hv::cat (" attach", id, ok ? "" : "!");
                    cx.need (o.threw == ! ok, ok ? "refused" : "accepted", hv::cat ("attaching to parameter ", id, ok ? " failed: " + o.error : " was accepted"));
                    if (o.threw && ! ok) { cx.need (o.errorType == "Unsupported", "error-type", "refused with a " + o.errorType + " error"); cx.saw ("refused"); }
                    if (ok) { cx.saw (s.model.count (id) ? "replaced" : "attached"); s.model[id] = base; }
                    if (ok && r.chance (0.3))
                    {
                        // chained calls reach the same effect
                        const double b2 = genBase (r, s.kind);
                        s.dsp->withEnvelope (id, CounterEnvelope (base + 1)).withEnvelope (id, CounterEnvelope (b2));
                        s.model[id] = b2;
                    }
                    break;
                }
                case 4:  // copy
                {
                    Slot<T> c;
                    c.kind = s.kind;
                    c.automatable = s.automatable;
                    c.model = s.model;
                    if (r.chance (0.5)) c.dsp = s.dsp->copy();
                    else if (s.kind == 0) c.dsp.reset (new RecordingDSP<T> (static_cast<RecordingDSP<T>&> (*s.dsp)));
                    else if (s.kind == 1) c.dsp.reset (new hart::GainDb<T> (static_cast<hart::GainDb<T>&> (*s.dsp)));
                    else if (s.kind == 2) c.dsp.reset (new hart::GainLinear<T> (static_cast<hart::GainLinear<T>&> (*s.dsp)));
                    else c.dsp = s.dsp->copy();
                    c.log = newLog<T>();
                    if (c.kind == 0) static_cast<RecordingDSP<T>&> (*c.dsp).log = c.log;
                    text += " copy";
                    cx.saw ("copies");
                    if (! c.model.empty()) cx.saw ("copies with automation");
                    if (! (r.chance (0.5) ? check (cx, c, "copy") : together (cx, c, s, "copy"))) { cx.describe = text; return; }
                    slots.push_back (std::move (c));
                    break;
                }
                case 5:  // move
                {
                    Slot<T> c;
                    c.kind = s.kind;
                    c.automatable = s.automatable;
                    c.model = s.model;
                    c.dsp = s.dsp->move();
                    c.log = s.kind == 0 ? static_cast<RecordingDSP<T>&> (*c.dsp).log : newLog<T>();
                    s.movedFrom = true;
                    text += " move";
                    cx.saw ("moves");
                    if (! check (cx, c, "moved effect")) { cx.describe = text; return; }
                    if (r.chance (0.5)) s.dsp.reset();
                    slots.push_back (std::move (c));
                    break;
                }
                case 6:  // assign
                {
                    auto& t = slots[(size_t) r.range (0, (int64_t) slots.size() - 1)];
                    if (t.movedFrom || t.kind != s.kind) break;
                    const bool self = &t == &s, moving = r.chance (0.4) && ! self;
                    auto assign = [&] (auto& to, auto& from) { if (moving) to = std::move (from); else to = from; };
                    if (s.kind == 0)
                    {
                        assign (static_cast<RecordingDSP<T>&> (*s.dsp), static_cast<RecordingDSP<T>&> (*t.dsp));
                        if (! self && ! moving) { s.log = newLog<T>(); static_cast<RecordingDSP<T>&> (*s.dsp).log = s.log; }
                        if (moving) s.log = static_cast<RecordingDSP<T>&> (*s.dsp).log;
                    }
                    else if (s.kind == 1) assign (static_cast<hart::GainDb<T>&> (*s.dsp), static_cast<hart::GainDb<T>&> (*t.dsp));
                    else if (s.kind == 2) assign (static_cast<hart::GainLinear<T>&> (*s.dsp), static_cast<hart::GainLinear<T>&> (*t.dsp));
                    else assign (static_cast<hart::HardClip<T>&> (*s.dsp), static_cast<hart::HardClip<T>&> (*t.dsp));
                    const auto m = t.model;
                    s.model = m;
                    s.automatable = t.automatable;
                    if (moving) t.movedFrom = true;
                    text += self ? " self-assign" : moving ? " move-assign" : " assign";
                    cx.saw (self ? "self-assignments" : moving ? "move-assignments" : "assignments");
                    if (! check (cx, s, self ? "self-assigned" : "assigned")) { cx.describe = text; return; }
                    if (! self && ! moving && ! together (cx, s, t, "assigned")) { cx.describe = text; return; }
                    break;
                }
                case 7:
                    if (! check (cx, s, "after" + text)) { cx.describe = text; return; }
                    break;
                default:  // destroy
                    if (slots.size() > 2) { const size_t k = (size_t) (&s - slots.data()); slots.erase (slots.begin() + (long) k); text += " destroy"; }
            }
        }
        cx.describe = hv::typeTag<T>() + text;
        for (auto& s : slots) if (! s.movedFrom && ! check (cx, s, "at the end")) return;
        cx.nontrivial (cx.describe);
        if (cx.index % 800 == 0) cx.sample (cx.describe);
    }
    cx.need (Ledger::live().size() == before, "leak", hv::cat (Ledger::live().size() - before, " objects remain"));
    cx.need (Ledger::faults() == 0, "lifetime", hv::cat (Ledger::faults(), " lifetime faults"));
    Ledger::faults() = 0;
}

void hv_case (hv::Ctx& cx) { if (cx.rng.chance (0.5)) program<float> (cx); else program<double> (cx); }
