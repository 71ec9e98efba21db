// R02: command lines given to HART in another process, and what they change there.
#include <filesystem>
#include "runner.hpp"

using namespace hp;
namespace fs = std::filesystem;

static std::string noiseText (hart::WhiteNoise<float>&& n)
{
    start<float> (n, 44100, 2, 50);
    return std::to_string (hashOf (planesOf (renderBlock<float> (n, 2, 50))));
}

static std::string fixedText (double v, int decimals) { char b[400]; std::snprintf (b, sizeof b, "%.*f", decimals, v); return b; }

/// the number of decimals of every number in the text
static std::vector<int> decimalsIn (const std::string& text)
{
    std::vector<int> d;
    for (size_t i = 0; i < text.size();)
    {
        if (! std::isdigit ((unsigned char) text[i])) { ++i; continue; }
        while (i < text.size() && std::isdigit ((unsigned char) text[i])) ++i;
        int n = 0;
        if (i < text.size() && text[i] == '.') { ++i; while (i < text.size() && std::isdigit ((unsigned char) text[i])) { ++i; ++n; } }
        d.push_back (n);
    }
    return d;
}

static std::vector<std::string> spell (hv::Rng& r, const std::string& longName, const std::string& shortName, const std::string& value)
{
    const int k = (int) r.range (0, shortName.empty() ? 1 : 3);
    if (k == 0) return { longName, value };
    if (k == 1) return { longName + "=" + value };
    if (k == 2) return { shortName, value };
    return { shortName + value };
}

void hv_case (hv::Ctx& cx)
{
    auto& r = cx.rng;
    static int crashes = 0;
    if (crashes > 5) return;  // reported often enough, and slow
    behaviours().clear();
    const std::string dir = cx.scratch;
    const std::string area = dir + "/r02";
    fs::remove_all (area);
    fs::create_directories (area + "/a b/sub");
    fs::create_directories (area + "/root/sub");

    // the command line
    std::vector<std::vector<std::string>> options;
    uint32_t seed = 0;
    Decimals d;
    std::string root = ".";
    bool generators = false, shuffle = false;
    const double few = r.chance (0.1) ? 0.0 : 0.4;
    if (r.chance (few)) { seed = r.chance (0.4) ? (uint32_t) r.range (0, 20) : r.chance (0.1) ? r.pick ({ 0u, 4294967295u, 2147483648u }) : (uint32_t) r.u64(); options.push_back (spell (r, "--seed", "-s", std::to_string (seed))); }
    auto dec = [&] (const char* name, int& v) { if (r.chance (few)) { v = (int) r.range (0, 15); options.push_back (spell (r, name, "", std::to_string (v))); } };
    dec ("--lin-decimals", d.lin);
    dec ("--db-decimals", d.db);
    dec ("--sec-decimals", d.sec);
    dec ("--hz-decimals", d.hz);
    dec ("--rad-decimals", d.rad);
    if (r.chance (few)) { root = r.pick ({ std::string ("r02/root"), std::string ("r02/a b"), area + "/root", area + "/a b", std::string ("./r02/root/") }); options.push_back (spell (r, "--data-root-path", "-d", root)); }
    if (r.chance (few)) { generators = true; options.push_back ({ r.chance (0.5) ? "-g" : "--run-generators" }); }
    if (r.chance (few)) { shuffle = true; options.push_back ({ "--shuffle" }); }
    if (r.chance (few * 0.5)) options.push_back (spell (r, "--tags", "-t", "[sometag]"));
    const int special = (int) r.range (0, 9);  // 0 help, 1 invalid, 2 empty root
    if (special == 0) options.push_back ({ r.chance (0.5) ? "--help" : "-h" });
    r.shuffle (options);
    if (special == 1)
    {
        const std::vector<std::vector<std::string>> bad { { "--no-such-option" }, { "-x" }, { "--seeds", "3" }, { "stray" }, { "--shufle" }, { "--data-root" } };
        const std::vector<std::vector<std::string>> badValue { { "--seed", "abc" }, { "--seed=1x" }, { "--seed=" + std::string ("1.5") }, { "--lin-decimals", "many" }, { "--db-decimals=2.5" } };
        const std::vector<std::vector<std::string>> last { { "--seed" }, { "-s" }, { "--data-root-path" }, { "-d" }, { "--rad-decimals" }, { "--sec-decimals" } };
        const int k = (int) r.range (0, 2);
        auto dropSame = [&] (const std::string& name)
        {
            // options given twice are another matter
            options.erase (std::remove_if (options.begin(), options.end(), [&] (const std::vector<std::string>& o)
            {
                return o[0].compare (0, 6, "--seed") == 0 || o[0].compare (0, 2, "-s") == 0 || o[0].compare (0, 2, "-d") == 0 || o[0].compare (0, 6, "--data") == 0 || o[0].find ("decimals") != std::string::npos;
            }), options.end());
            (void) name;
        };
        if (k == 0) options.insert (options.begin() + (long) r.range (0, (int64_t) options.size()), r.pick (bad));
        else if (k == 1) { dropSame (""); options.insert (options.begin() + (long) r.range (0, (int64_t) options.size()), r.pick (badValue)); }
        else { dropSame (""); options.push_back (r.pick (last)); }
    }
    if (special == 2)
    {
        options.erase (std::remove_if (options.begin(), options.end(), [] (const std::vector<std::string>& o) { return o[0].compare (0, 2, "-d") == 0 || o[0].compare (0, 6, "--data") == 0; }), options.end());
        options.push_back ({ r.chance (0.5) ? "-d" : "--data-root-path", "" });
    }
    std::vector<std::string> args;
    std::string line;
    for (auto& o : options) for (auto& a : o) { args.push_back (a); line += " '" + a + "'"; }
    cx.describe = "command line:" + line;
    cx.nontrivial (line + hv::cat (cx.index));
    if (cx.index % 300 == 0) cx.sample (line);

    // the tests
    const int n = r.chance (0.03) ? 0 : shuffle ? (int) r.range (12, 40) : (int) r.range (1, 12);
    std::vector<Registered> reg;
    for (int i = 0; i < n; ++i)
    {
        reg.push_back ({ "test " + std::to_string (i), "", hart::TaskCategory::test, i });
        if (i < n / 2 || r.chance (0.5)) reg.push_back ({ "generator " + std::to_string (i), "", hart::TaskCategory::generate, i });
    }
    std::vector<int> expected;
    for (auto& t : reg) if ((t.category == hart::TaskCategory::generate) == generators) expected.push_back (t.slot);
    const std::string rootDir = root[0] == '/' ? root : dir + "/" + root;
    const double value = r.uni (0.1, 1000.0);
    const bool wavs = special != 2 && r.chance (0.5);
    const Planes<float> played { std::vector<float> { 0.5f, -0.25f, 0.125f } };
    if (wavs)
    {
        std::string data;
        for (float f : played[0]) { uint32_t b; std::memcpy (&b, &f, 4); put32 (data, b); }
        hv::writeFile (rootDir + "/r02-in.wav", wavBytes (3, 1, 44100, 32, data));
        ::unlink ((rootDir + "/r02-out.wav").c_str());
        ::unlink ((rootDir + "/r02-out.svg").c_str());
    }
    hook() = [&] (int)
    {
        static bool once = false;
        if (once) return;
        once = true;
        event ("noise " + noiseText (hart::WhiteNoise<float>()));
        std::ostringstream s;
        s << hart::linPrecision << value << ' ' << hart::dbPrecision << value << ' ' << hart::secPrecision << value << ' ' << hart::hzPrecision << value << ' ' << hart::radPrecision << value;
        event ("digits " + s.str());
        std::ostringstream o;
        o << hart::GainLinear<double> (0.5) << hart::GainDb<double> (-3) << hart::SineSweep<double> (2.0, 30.0, 40.0) << hart::PeaksAt<float> (-6.0, 0.25);
        event ("objects " + o.str());
        try { [] { HART_REQUIRES_DATA_PATH_ARG }(); event ("root present"); }
        catch (const hart::ConfigurationError&) { event ("root missing"); }
        if (wavs)
        {
            hart::WavFile<float> w ("r02-in.wav");
            start<float> (w, 44100, 1, 3);
            event ("wav " + std::to_string (hashOf (planesOf (renderBlock<float> (w, 1, 3)))));
            hart::processAudioWith (hart::GainDb<float>()).withInputSignal (hart::Silence<float>()).withDuration (0.001).saveOutputTo ("r02-out.wav").savePlotTo ("r02-out.svg").process();
        }
    };
    auto child = [&] (const std::vector<std::string>& a) { return runChild (dir, reg, a); };
    const ChildRun c = child (args);
    cx.saw ("processes");
    if (! c.exited) { ++crashes; cx.viol ("crashed", hv::cat ("the runner ended by signal ", c.status - 1000, ": ", c.err.substr (0, 1500))); return; }

    if (special == 0 || special == 1)
    {
        if ((c.status == 0) != (special == 0)) cx.viol (special == 0 ? "help-status" : "invalid-status", hv::cat ("exit status ", c.status, " for", line));
        if (! c.order.empty() || ! c.verdicts.empty()) cx.viol (special == 0 ? "help-runs-tests" : "invalid-runs-tests", hv::cat (c.order.size(), " tests were run"));
        if (special == 0)
        {
            for (auto name : { "--seed", "--data-root-path", "--shuffle", "--run-generators", "--lin-decimals", "--db-decimals", "--sec-decimals", "--hz-decimals", "--rad-decimals", "-s", "-d", "-g" })
                if (c.out.find (name) == std::string::npos) cx.viol ("help-text", std::string (name) + " is not mentioned");
        }
        else if (c.err.empty() && c.out.empty()) cx.viol ("invalid-silent", "no message");
        cx.saw (special == 0 ? "help" : "invalid command lines");
        return;
    }
    if (c.status != 0) { cx.viol ("status", hv::cat ("exit status ", c.status, " for", line, ": ", c.err.substr (0, 300))); return; }
    cx.saw ("valid command lines");

    // order and choice
    auto got = c.order, want = expected;
    if (shuffle)
    {
        std::sort (got.begin(), got.end());
        std::sort (want.begin(), want.end());
        if (got != want) cx.viol ("shuffle-loses", hv::cat ("shuffling ", expected.size(), " tasks ran ", c.order.size()));
        if (expected.size() >= 12 && c.order == expected) cx.viol ("not-shuffled", "the tasks were run in their original order");
        // where the tests registered first and last end up, over many seeds
        static size_t runs = 0, lastStays = 0, firstStays = 0;
        if (expected.size() >= 4 && got.size() == expected.size())
        {
            ++runs;
            lastStays += c.order.back() == expected.back();
            firstStays += c.order.front() == expected.front();
            if (runs >= 30 && (lastStays == runs || firstStays == runs)) cx.viol ("shuffle-moves-not-all", hv::cat ("the test registered ", lastStays == runs ? "last" : "first", " has stayed in its place in all of ", runs, " shuffled runs"));
        }
        const auto again = child (args);
        if (again.order != c.order) cx.viol ("shuffle-not-repeatable", "the same seed gave another order");
        std::vector<std::string> otherArgs { "--shuffle" };
        if (generators) otherArgs.push_back ("-g");
        if (seed != 0 || r.chance (0.5)) { otherArgs.push_back ("--seed"); otherArgs.push_back (std::to_string (seed)); }
        const auto same = child (otherArgs);
        if (same.order != c.order) cx.viol ("shuffle-not-by-seed", "the same seed gave another order with other options");
        std::vector<std::string> otherSeed { "--shuffle", "--seed", std::to_string (seed ^ (1u << r.range (0, 31))) };
        if (generators) otherSeed.push_back ("-g");
        const auto other = child (otherSeed);
        if (expected.size() >= 12 && other.order == c.order) cx.viol ("shuffle-ignores-seed", "seed " + otherSeed[2] + " gave the same order as " + std::to_string (seed));
        cx.saw ("shuffles");
    }
    else if (got != want) cx.viol (generators ? "generators" : "tests", hv::cat ("ran ", got.size(), " tasks instead of ", want.size(), ", or in another order"));
    if (generators) cx.saw ("generator runs");
    if (expected.empty())
    {
        if (! c.nothing || ! c.verdicts.empty()) cx.viol ("nothing-to-run", "an empty run does not say so");
        cx.saw ("empty runs");
        return;
    }

    auto eventOf = [&] (const std::string& key) { for (auto& e : c.events) if (e.compare (0, key.size() + 1, key + " ") == 0) return e.substr (key.size() + 1); return std::string ("(none)"); };
    if (eventOf ("noise") != noiseText (hart::WhiteNoise<float> (seed))) cx.viol ("seed", hv::cat ("default noise is not that of seed ", seed));
    if (seed != 0 && noiseText (hart::WhiteNoise<float> (seed)) == noiseText (hart::WhiteNoise<float> (0))) cx.viol ("seed", hv::cat ("seed ", seed, " gives the noise of seed 0"));
    const std::string digits = fixedText (value, d.lin) + ' ' + fixedText (value, d.db) + ' ' + fixedText (value, d.sec) + ' ' + fixedText (value, d.hz) + ' ' + fixedText (value, d.rad);
    if (eventOf ("digits") != digits) cx.viol ("decimals", "'" + eventOf ("digits") + "' instead of '" + digits + "'");
    const std::vector<int> objects { d.lin, d.db, d.sec, d.hz, d.hz, d.rad, d.db, d.lin };
    if (decimalsIn (eventOf ("objects")) != objects) cx.viol ("decimals-of-objects", "'" + eventOf ("objects") + "'");
    if (eventOf ("root") != (special == 2 ? "missing" : "present")) cx.viol ("requires-root", "with the data root '" + (special == 2 ? "" : root) + "' it is said to be " + eventOf ("root"));
    if (special == 2) cx.saw ("empty roots");
    if (wavs)
    {
        if (eventOf ("wav") != std::to_string (hashOf (played))) cx.viol ("data-root-read", "the wav file in the data root was not read");
        for (auto f : { "/r02-out.wav", "/r02-out.svg" }) if (! hv::fileExists (rootDir + f)) cx.viol ("data-root-write", std::string (f) + " is not in the data root");
        cx.saw ("relative paths");
        for (auto f : { "/r02-in.wav", "/r02-out.wav", "/r02-out.svg" }) ::unlink ((rootDir + f).c_str());
    }
}
