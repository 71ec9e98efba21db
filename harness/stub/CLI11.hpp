// A small stand-in for CLI11, used only to keep the compile time of harnesses down that do
// not judge command line handling (R01, R02 and X01 use the real one). It understands the
// subset of the API that HART uses; if HART starts to use more, the build falls back to the real CLI11.
#pragma once
#include <algorithm>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace CLI
{
struct Option
{
    std::function<void (const std::string&)> set;
    bool flag = false;
    template <typename T> Option* default_val (const T& v) { std::ostringstream s; s << v; set (s.str()); return this; }
};
class App
{
public:
    App (std::string = "") {}
    template <typename T> Option* add_option (const std::string& names, T& v, const std::string& = "")
    {
        Option* o = add (names);
        o->set = [&v] (const std::string& s) { assign (s, v); };
        return o;
    }
    Option* add_flag (const std::string& names, bool& v, const std::string& = "")
    {
        Option* o = add (names);
        o->flag = true;
        o->set = [&v] (const std::string&) { v = true; };
        return o;
    }
    void parse (int argc, const char* const* argv)
    {
        for (int i = 1; i < argc; ++i)
        {
            auto it = byName.find (argv[i]);
            if (it == byName.end()) throw std::runtime_error (std::string ("unknown option ") + argv[i]);
            if (it->second->flag) it->second->set ("");
            else if (i + 1 < argc) it->second->set (argv[++i]);
            else throw std::runtime_error ("missing value");
        }
    }
private:
    std::vector<std::unique_ptr<Option>> options;
    std::map<std::string, Option*> byName;
    static void assign (const std::string& s, std::string& v) { v = s; }
    template <typename T> static void assign (const std::string& s, T& v) { std::istringstream (s) >> v; }
    Option* add (const std::string& names)
    {
        options.emplace_back (new Option);
        std::istringstream s (names);
        std::string n;
        while (std::getline (s, n, ',')) byName[n] = options.back().get();
        return options.back().get();
    }
};
}  // namespace CLI
#define CLI11_PARSE(app, argc, argv) do { (app).parse ((argc), (argv)); } while (0)
