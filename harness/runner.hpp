// Runs sets of tests through HART's own entry point in forked processes.
#pragma once

#include <sys/wait.h>
#include "stock.hpp"

namespace hp
{

struct Step
{
    // 0 expectation holds, 1 expectation fails, 2 assertion holds, 3 prints, 4 audio test passes, 5 audio
    // expectation fails, 6 audio assertion fails, 7 catches its own exception, 8 and up: ends the test, see play()
    int kind = 0;
    std::string text;
};

struct Behaviour
{
    std::vector<Step> steps;
    bool fails = false;
    std::vector<std::string> messages;  // what the report of the test has to contain, each exactly once
};

/// the behaviours of the tests in this process
inline std::map<int, Behaviour>& behaviours() { static std::map<int, Behaviour> b; return b; }
inline int& eventFd() { static int fd = -1; return fd; }
inline std::function<void (int)>& hook() { static std::function<void (int)> f; return f; }

inline void event (const std::string& s)
{
    const std::string l = s + "\n";
    if (eventFd() >= 0 && ::write (eventFd(), l.data(), l.size()) < 0) ::_exit (96);
}

struct Custom { int x; };
struct Derived : std::runtime_error { using std::runtime_error::runtime_error; };
struct OwnAssert : hart::TestAssertException { using hart::TestAssertException::TestAssertException; };
struct Silent : std::exception { const char* what() const noexcept override { return ""; } };

template <typename T> void audioTest (const std::string& label, int kind)
{
    ProbeMatcher<T> m;
    m.perBlock = label.size() % 2;
    m.bad = [kind] (size_t, size_t f, T) { return kind != 4 && f == 3; };
    auto b = hart::processAudioWith (hart::GainDb<T> (-1.0));
    b.withInputSignal (hart::SineWave<T>()).withDuration (0.001).withLabel (label);
    if (kind == 6) b.assertTrue (m); else b.expectTrue (m);
    b.process();
}

inline void play (const Behaviour& b)
{
    for (auto& s : b.steps)
        switch (s.kind)
        {
            case 0: HART_EXPECT_TRUE (s.kind == 0); break;
            case 1: HART_EXPECT_TRUE (s.kind == 4711); break;
            case 2: HART_ASSERT_TRUE (! s.text.empty() || s.kind == 2); break;
            case 3: std::cout << s.text; break;
            case 4: case 5: case 6: if (s.text.size() % 3) audioTest<float> (s.text, s.kind); else audioTest<double> (s.text, s.kind); break;
            case 7: try { throw std::runtime_error (s.text); } catch (...) {} break;
            case 8: HART_ASSERT_TRUE (s.kind == 4712); break;
            case 9: HART_FAIL_TEST(); break;
            case 10: HART_FAIL_TEST_MSG (s.text); break;
            case 11: throw std::runtime_error (s.text);
            case 12: throw Derived (s.text);
            case 13: throw Silent();
            case 14: throw 42;
            case 15: throw "a plain string";
            case 16: throw Custom { 3 };
            case 17: throw hart::ConfigurationError (s.text);
            case 18: throw hart::ValueError (s.text);
            case 19: throw hart::IOError (s.text);
            case 20: throw hart::HartAssertException (s.text);
            case 21: throw hart::StateError (s.text);
            case 22: throw std::bad_alloc();
            case 23: throw hart::TestAssertException (s.text);
            case 24: throw hart::UnsupportedError (s.text);
            case 25: throw std::string (s.text);
            case 26: throw hart::SizeError (s.text);
            case 27: throw hart::SampleRateError (s.text);
            case 28: throw hart::ChannelLayoutError (s.text);
            case 29: throw hart::IndexError (s.text);
            case 30: throw OwnAssert (s.text);
            case 31: throw std::logic_error (s.text);
            case 32: throw std::make_shared<int> (1);
            case 33: throw Behaviour (b);
            case 34: throw nullptr;
            case 35: throw std::out_of_range (s.text);
            default: break;
        }
}

constexpr int numSlots = 64;
inline void runSlot (int i)
{
    event ("run " + std::to_string (i));
    if (hook()) hook() (i);
    const auto it = behaviours().find (i);
    if (it != behaviours().end()) play (it->second);
    event ("end " + std::to_string (i));
}
template <int I> void slot() { runSlot (I); }
template <int... I> std::vector<void (*)()> slotTable (std::integer_sequence<int, I...>) { return { &slot<I>... }; }
inline void (*slotFunction (int i))() { static const auto t = slotTable (std::make_integer_sequence<int, numSlots>()); return t[(size_t) i]; }

inline Behaviour genBehaviour (hv::Rng& r, const std::string& id)
{
    Behaviour b;
    static int serial = 0;
    auto unique = [&] { return id + "-" + std::to_string (++serial) + (r.chance (0.2) ? " with \xc3\xbc and \"quotes\"" : "") + "."; };
    const double failing = r.pick ({ 0.0, 0.0, 0.3 });
    if (r.chance (0.01))
        for (int i = (int) r.range (200, 1200); i > 0; --i) { b.fails = true; b.steps.push_back ({ r.chance (0.5) ? 1 : 0, "x" }); }
    for (int i = (int) r.range (0, 5); i > 0; --i)
    {
        Step s;
        s.kind = (int) r.range (0, 7);
        if ((s.kind == 1 || s.kind == 5 || s.kind == 6) && ! r.chance (failing)) s.kind = r.chance (0.5) ? 0 : 4;
        s.text = s.kind == 3 ? r.pick ({ "some output", "a line\n", "50% done %s %n", "\xc3\xbc\n\n" }) : unique();
        b.steps.push_back (s);
        if (s.kind == 1) b.fails = true;
        if (s.kind == 5 || s.kind == 6) { b.fails = true; b.messages.push_back (s.text); }
        if (s.kind == 6) return b;
    }
    if (r.chance (0.4))
    {
        Step s;
        s.kind = (int) r.range (8, 35);
        if (! r.chance (0.15)) s.text = unique();
        if (r.chance (0.05)) s.text += "\na second line\n" + std::string ((size_t) r.range (1, 9000), 'm');
        b.steps.push_back (s);
        b.fails = true;
        if (s.text.empty()) return b;
        if (s.kind == 10 || s.kind == 11 || s.kind == 12 || (s.kind >= 17 && s.kind <= 24 && s.kind != 22) || (s.kind >= 26 && s.kind <= 31) || s.kind == 35) b.messages.push_back (s.text);
    }
    return b;
}

struct Registered
{
    std::string name, tags;
    hart::TaskCategory category = hart::TaskCategory::test;
    int slot = 0;
};

struct ChildRun
{
    bool exited = false;
    int status = 0;
    std::string out, err;
    std::vector<std::string> events;
    std::vector<int> order;  // the slots that were run
    std::vector<std::pair<std::string, bool>> verdicts;
    std::vector<std::string> sections;  // text from each verdict line to the next test
    long passed = -1, failed = -1, ofPassed = -1, ofFailed = -1;
    bool nothing = false;
};

inline int mainLike (int argc, char** argv)
{
    HART_RUN_ALL_TESTS (argc, argv);
}

/// registers the tests and runs them with the given command line, in another process
inline ChildRun runChild (const std::string& dir, const std::vector<Registered>& tests, const std::vector<std::string>& args, const std::function<void()>& before = {})
{
    const std::string out = dir + "/child.out", err = dir + "/child.err", ev = dir + "/child.events";
    for (auto& f : { out, err, ev }) ::unlink (f.c_str());
    std::cout.flush();
    const pid_t pid = ::fork();
    if (pid == 0)
    {
        ::alarm (20);
        ::dup2 (::open (out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600), 1);
        ::dup2 (::open (err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600), 2);
        eventFd() = ::open (ev.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
        std::vector<std::string> strings { "tests" };
        strings.insert (strings.end(), args.begin(), args.end());
        std::vector<char*> argv;
        for (auto& s : strings) argv.push_back (&s[0]);
        argv.push_back (nullptr);
        // what leaves main() ends the process, as it does for users
        try
        {
            for (auto& t : tests)
            {
                try { hart::TestRegistry::getInstance().add (t.name, t.tags, t.category, slotFunction (t.slot)); }
                catch (const hart::ValueError&) { event ("refused " + t.name); }
            }
            if (before) before();
            std::exit (mainLike ((int) strings.size(), argv.data()));
        }
        catch (...) { std::abort(); }
    }
    ChildRun c;
    int status = 0;
    ::waitpid (pid, &status, 0);
    c.exited = WIFEXITED (status);
    c.status = c.exited ? WEXITSTATUS (status) : 1000 + WTERMSIG (status);
    c.out = hv::readFile (out);
    c.err = hv::readFile (err);
    std::istringstream e (hv::readFile (ev));
    std::string l;
    while (std::getline (e, l))
    {
        c.events.push_back (l);
        if (l.compare (0, 4, "run ") == 0) c.order.push_back (std::atoi (l.c_str() + 4));
    }
    std::string text = c.out;
    for (auto& ch : text) if (ch == '\r') ch = '\n';
    std::istringstream s (text);
    while (std::getline (s, l))
    {
        const auto close = l.find ("] ");
        bool verdict = false;
        if (l.size() > 9 && l[0] == '[' && l.find ("] Running ") == std::string::npos && close != std::string::npos)
        {
            const std::string tail = l.substr (l.size() - 9);
            if (tail == " - passed" || tail == " - failed")
            {
                c.verdicts.emplace_back (l.substr (close + 2, l.size() - 9 - close - 2), tail == " - passed");
                c.sections.emplace_back();
                verdict = true;
            }
        }
        long a = 0, b = 0;
        if (std::sscanf (l.c_str(), "[ PASSED ] %ld/%ld", &a, &b) == 2) { c.passed = a; c.ofPassed = b; }
        if (std::sscanf (l.c_str(), "[ FAILED ] %ld/%ld", &a, &b) == 2) { c.failed = a; c.ofFailed = b; }
        if (l.find ("Nothing to run") != std::string::npos) c.nothing = true;
        if (! verdict && ! c.sections.empty()) c.sections.back() += l + "\n";
    }
    return c;
}

inline size_t occurrences (const std::string& text, const std::string& what)
{
    size_t n = 0;
    for (size_t at = text.find (what); at != std::string::npos; at = text.find (what, at + what.size())) ++n;
    return n;
}

}  // namespace hp
