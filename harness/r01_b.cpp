// The second file of R01: tests on the same lines as those of r01.cpp, as happens
#include "hart.hpp"  // in any larger suite
void r01Event (const std::string&);
std::string& r01Files();
std::vector<std::pair<int, std::string>> r01Steps (int);
static void playHere (int);

HART_TEST ("fixed test of another file") { playHere (56); }
HART_TEST_WITH_TAGS ("fixed test of another file with tags", "[a][b]") { playHere (57); }
HART_GENERATE ("fixed generator of another file") { playHere (58); }
HART_GENERATE_WITH_TAGS ("fixed test of another file", "[c]") { playHere (59); }

static const bool thisFile = (r01Files() += 'b', true);

static void playHere (int i)
{
    r01Event ("run " + std::to_string (i));
    for (auto& s : r01Steps (i))
    {
        const int kind = s.first;
        switch (kind)
        {
            case 0: HART_EXPECT_TRUE (kind == 0); break;
            case 1: HART_EXPECT_TRUE (kind == 4711); break;
            case 2: HART_ASSERT_TRUE (kind == 2); break;
            case 3: std::cout << s.second; break;
            case 8: HART_ASSERT_TRUE (kind == 4712); break;
            case 9: HART_FAIL_TEST(); break;
            case 10: HART_FAIL_TEST_MSG (s.second); break;
            case 11: throw std::runtime_error (s.second);
            case 14: throw 42;
            default: std::abort();
        }
    }
    r01Event ("end " + std::to_string (i));
}
