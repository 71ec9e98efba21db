// R01: sets of tests of known behaviour, run by HART in another process; its report, its exit status
// and what was really executed against a model.
#include "runner.hpp"

// registered the way users do it, in two files, in every process before anything else
using namespace hp;

HART_TEST ("fixed test") { runSlot (60); }
HART_TEST_WITH_TAGS ("fixed test with tags", "[a][b]") { runSlot (61); }
HART_GENERATE ("fixed generator") { runSlot (62); }
HART_GENERATE_WITH_TAGS ("fixed test", "[c]") { runSlot (63); }

// the order of the two files in a program is up to the compiler
std::string& r01Files() { static std::string s; return s; }
static const bool thisFile = (r01Files() += 'a', true);
void r01Event (const std::string& e) { event (e); }
std::vector<std::pair<int, std::string>> r01Steps (int i)
{
    std::vector<std::pair<int, std::string>> v;
    for (auto& s : behaviours()[i].steps) v.emplace_back (s.kind, s.text);
    return v;
}
// what that file can play itself
static bool playable (const Behaviour& b)
{
    for (auto& s : b.steps) if ((s.kind >= 4 && s.kind <= 7) || s.kind == 12 || s.kind == 13 || s.kind > 14) return false;
    return true;
}

void hv_case (hv::Ctx& cx)
{
    auto& r = cx.rng;
    static int crashes = 0;
    if (crashes > 5) return;  // reported often enough, and slow
    behaviours().clear();
    const std::string dir = cx.scratch;
    const bool many = r.chance (0.03);
    const bool huge = many && r.chance (0.2);
    const int n = huge ? (int) r.range (1000, 4000) : many ? (int) r.range (100, 240) : (int) r.range (0, r.chance (0.3) ? 50 : 8);
    const size_t exactly = many && ! huge ? r.pick<size_t> ({ 0, 255, 256, 256, 257, 512, 768 }) : 0;
    const bool generators = r.chance (0.25), shuffled = r.chance (0.25);
    const bool allFail = r.chance (many ? 0.6 : 0.15), nonePass = allFail;
    const bool noneFail = ! allFail && r.chance (0.25);
    auto behave = [&] (const std::string& id, bool other = false)
    {
        for (int tries = 0;; ++tries)
        {
            Behaviour b = genBehaviour (r, id);
            if (other && ! playable (b)) continue;
            if (noneFail && b.fails) continue;
            if (nonePass && ! b.fails) continue;
            return b;
        }
    };
    const int slots = many ? 3 : 50;
    for (int i = 0; i < slots; ++i) behaviours()[i] = behave ("t" + std::to_string (i));
    for (int i = 56; i < 64; ++i) behaviours()[i] = behave ("fixed" + std::to_string (i), i < 60);

    std::vector<Registered> reg;
    std::vector<Registered> model[2];
    std::set<std::string> names[2];
    const auto T = hart::TaskCategory::test, G = hart::TaskCategory::generate;
    auto add = [&] (const std::string& name, hart::TaskCategory c, int slot, bool toRegistry)
    {
        Registered t { name, r.chance (0.3) ? "[tag]" : "", c, slot };
        if (toRegistry) reg.push_back (t);
        const int k = c == G;
        const bool fresh = names[k].insert (name).second;
        if (fresh) model[k].push_back (t);
        return fresh;
    };
    for (char file : r01Files())
    {
        if (file == 'a')
        {
            add ("fixed test", T, 60, false);
            add ("fixed test with tags", T, 61, false);
            add ("fixed generator", G, 62, false);
            add ("fixed test", G, 63, false);
        }
        else
        {
            add ("fixed test of another file", T, 56, false);
            add ("fixed test of another file with tags", T, 57, false);
            add ("fixed generator of another file", G, 58, false);
            add ("fixed test of another file", G, 59, false);
            cx.saw ("tests of another file");
        }
    }
    std::vector<std::string> refused;
    for (int i = 0; i < n; ++i)
    {
        std::string name;
        switch ((int) r.range (0, 7))
        {
            case 0: name = hv::cat ("Test #", i); break;
            case 1: name = hv::cat ("name with spaces ", i); break;
            case 2: name = hv::cat ("\xc3\xbcnic\xc3\xb6""de ", i); break;
            case 3: name = hv::cat ("quotes \" and ] brackets [ ", i, " - passed"); break;
            case 4: name = std::string ((size_t) r.range (1, 300), 'x') + std::to_string (i); break;
            case 5: name = hv::cat (i, " % \\n %s - failed"); break;
            case 6: name = i == 0 ? "" : hv::cat ("Same ", r.range (0, 5)); break;
            default: name = hv::cat ("t", i);
        }
        if (r.chance (0.05)) name = "fixed test";
        if (! add (name, r.chance (0.25) ? G : T, many ? (int) r.range (0, 2) : i, true)) refused.push_back (name);
    }
    for (int i = 0; model[generators].size() < exactly; ++i) add (hv::cat ("filler ", i), generators ? G : T, (int) r.range (0, 2), true);
    std::vector<std::vector<std::string>> options;
    if (generators) options.push_back ({ r.chance (0.5) ? "-g" : "--run-generators" });
    if (shuffled) options.push_back ({ "--shuffle" });
    if (r.chance (0.3)) options.push_back ({ "--seed", std::to_string (r.range (0, 1000000)) });
    r.shuffle (options);
    std::vector<std::string> args;
    for (auto& o : options) args.insert (args.end(), o.begin(), o.end());
    const auto& expected = model[generators];
    size_t failing = 0;
    for (auto& t : expected) failing += behaviours()[t.slot].fails;
    cx.describe = hv::cat (expected.size(), generators ? " generators, " : " tests, ", failing, " failing, ", refused.size(), " refused", shuffled ? ", shuffled" : "");
    cx.nontrivial (hv::cat (cx.describe, cx.index));
    if (cx.index % 200 == 0) cx.sample (cx.describe);

    const ChildRun c = runChild (dir, reg, args);
    cx.saw ("processes");
    cx.saw ("tests run", c.order.size());
    if (generators) cx.saw ("generator runs");
    if (shuffled) cx.saw ("shuffled runs");
    if (failing > 0 && failing % 256 == 0) cx.saw ("failures filling a byte exactly");
    if (failing >= 256) cx.saw ("256 failing tests and more");
    if (! c.exited) { ++crashes; cx.viol ("crashed", hv::cat ("the runner ended by signal ", c.status - 1000, ": ", c.err.substr (0, 1500))); return; }
    if ((c.status == 0) != (failing == 0)) cx.viol ("exit-status", hv::cat ("exit status ", c.status, " though ", failing, " tests fail"));
    std::vector<std::string> gotRefused;
    for (auto& e : c.events) if (e.compare (0, 8, "refused ") == 0) gotRefused.push_back (e.substr (8));
    cx.saw ("refused duplicates", refused.size());
    if (gotRefused != refused) cx.viol ("duplicates", hv::cat (gotRefused.size(), " registrations were refused instead of ", refused.size()));

    // what was executed
    std::vector<int> want;
    for (auto& t : expected) want.push_back (t.slot);
    auto got = c.order;
    if (shuffled) { std::sort (want.begin(), want.end()); std::sort (got.begin(), got.end()); }
    if (got != want) cx.viol ("executed", hv::cat ("executed ", got.size(), " of ", want.size(), " tasks", shuffled ? "" : ", or in another order"));
    // the report
    if (c.verdicts.size() != expected.size()) { cx.viol ("verdict-count", hv::cat (c.verdicts.size(), " verdicts for ", expected.size(), " tasks: ", c.out.substr (0, 600))); return; }
    std::map<std::string, const Registered*> byName;
    for (auto& t : expected) byName[t.name] = &t;
    for (size_t i = 0; i < c.verdicts.size(); ++i)
    {
        const auto& v = c.verdicts[i];
        if (! shuffled && v.first != expected[i].name) { cx.viol ("verdict-order", "verdict on '" + v.first + "' in the place of '" + expected[i].name + "'"); return; }
        if (byName.count (v.first) == 0) { cx.viol ("verdict-name", "a verdict on '" + v.first + "' which is unknown or has one already"); return; }
        const Registered& t = *byName[v.first];
        if (! shuffled || i < c.order.size()) if (i < c.order.size() && c.order[i] != t.slot) { cx.viol ("verdict-order", "the verdict on '" + v.first + "' belongs to another task"); return; }
        byName.erase (v.first);
        const Behaviour& b = behaviours()[t.slot];
        if (v.second == b.fails) { cx.viol (b.fails ? "failure-missed" : "failure-invented", "'" + v.first + "' is reported as " + (v.second ? "passed" : "failed")); return; }
        cx.saw (b.fails ? "failed verdicts" : "passed verdicts");
        const std::string& section = c.sections[i];
        for (auto& m : b.messages)
        {
            const auto times = occurrences (section, m);
            if (times != 1) { cx.viol ("messages", hv::cat ("the message '", m, "' of '", v.first, "' appears ", times, " times in its report")); return; }
            cx.saw ("messages");
        }
        size_t expects = 0;
        for (auto& s : b.steps) { if (s.kind == 1) ++expects; }
        if (expects > 100) cx.saw ("tests with many failures");
        if (occurrences (section, "HART_EXPECT_TRUE() failed") != expects) { cx.viol ("messages", hv::cat ("'", v.first, "' reports ", occurrences (section, "HART_EXPECT_TRUE() failed"), " failed expectations instead of ", expects)); return; }
        if (! b.steps.empty() && b.steps.back().kind == 8 && occurrences (section, "HART_ASSERT_TRUE() failed") != 1) cx.viol ("messages", "the failed assertion of '" + v.first + "' is not reported");
        if (! b.steps.empty() && b.steps.back().kind == 9 && occurrences (section, "HART_FAIL_TEST()") != 1) cx.viol ("messages", "HART_FAIL_TEST() of '" + v.first + "' is not reported");
        if (! b.fails && ! many)
            for (auto& other : behaviours()) for (auto& m : other.second.messages)
                if (section.find (m) != std::string::npos && other.first != t.slot) cx.viol ("messages-leak", "a message of another test is reported by '" + v.first + "'");
    }
    if (c.nothing) { cx.viol ("nothing-to-run", "'Nothing to run' is printed"); return; }
    const long passed = (long) (expected.size() - failing);
    if (c.passed != passed || c.ofPassed != (long) expected.size()) cx.viol ("counts", hv::cat ("[ PASSED ] ", c.passed, "/", c.ofPassed, " instead of ", passed, "/", expected.size()));
    if (failing > 0 && (c.failed != (long) failing || c.ofFailed != (long) expected.size())) cx.viol ("counts", hv::cat ("[ FAILED ] ", c.failed, "/", c.ofFailed, " instead of ", failing, "/", expected.size()));
    if (failing == 0 && c.failed > 0) cx.viol ("counts", "failed tests are counted though none fails");
    if (failing > 0 && failing < expected.size()) cx.saw ("mixed runs");
    if (failing == 0) cx.saw ("runs without failures");
}
