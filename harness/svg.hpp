// Reads the plots HART writes: checks that they are well-formed and extracts the lines of the panels.
#pragma once
#include "hv.hpp"

namespace hp
{

struct Svg
{
    struct Element { std::string name; std::map<std::string, std::string> attrs; std::string text; int parent = -1; };
    std::vector<Element> elements;  // in document order
    std::string error;

    bool hasClass (int e, const std::string& c) const
    {
        auto it = elements[(size_t) e].attrs.find ("class");
        return it != elements[(size_t) e].attrs.end() && (" " + it->second + " ").find (" " + c + " ") != std::string::npos;
    }
    std::string attr (int e, const std::string& a) const
    {
        auto it = elements[(size_t) e].attrs.find (a);
        return it == elements[(size_t) e].attrs.end() ? "" : it->second;
    }
    /// the first transform on the way up from an element's parent
    std::string place (int e) const
    {
        for (int p = elements[(size_t) e].parent; p >= 0; p = elements[(size_t) p].parent)
            if (! attr (p, "transform").empty()) return attr (p, "transform");
        return "";
    }
};

inline Svg parseSvg (const std::string& s)
{
    Svg d;
    std::vector<int> open;
    size_t i = 0;
    bool root = false;
    auto fail = [&] (const std::string& e) { d.error = hv::cat (e, " at byte ", i); return d; };
    auto isName = [] (char c) { return std::isalnum ((unsigned char) c) || c == '-' || c == '_' || c == ':' || c == '.'; };
    auto entity = [&] (size_t at)
    {
        const auto end = s.find (';', at);
        if (end == std::string::npos || end - at > 10) return false;
        const std::string n = s.substr (at + 1, end - at - 1);
        return n == "lt" || n == "gt" || n == "amp" || n == "quot" || n == "apos" || (n.size() > 1 && n[0] == '#');
    };
    while (i < s.size())
    {
        if (s[i] != '<')
        {
            if (s[i] == '&' && ! entity (i)) return fail ("bare ampersand");
            if (open.empty() && ! std::isspace ((unsigned char) s[i])) return fail ("text outside of the document");
            if (! open.empty()) d.elements[(size_t) open.back()].text += s[i];
            ++i;
            continue;
        }
        if (s.compare (i, 2, "<?") == 0) { const auto e = s.find ("?>", i); if (e == std::string::npos || root) return fail ("bad declaration"); i = e + 2; continue; }
        if (s.compare (i, 4, "<!--") == 0) { const auto e = s.find ("-->", i); if (e == std::string::npos) return fail ("open comment"); i = e + 3; continue; }
        if (s.compare (i, 9, "<![CDATA[") == 0) { const auto e = s.find ("]]>", i); if (e == std::string::npos) return fail ("open cdata"); i = e + 3; continue; }
        if (s.compare (i, 2, "<!") == 0) { const auto e = s.find ('>', i); if (e == std::string::npos || root) return fail ("bad doctype"); i = e + 1; continue; }
        if (s.compare (i, 2, "</") == 0)
        {
            size_t e = i + 2;
            while (e < s.size() && isName (s[e])) ++e;
            const std::string n = s.substr (i + 2, e - i - 2);
            if (open.empty() || d.elements[(size_t) open.back()].name != n || e >= s.size() || s[e] != '>') return fail ("mismatched end tag " + n);
            open.pop_back();
            i = e + 1;
            continue;
        }
        size_t e = i + 1;
        while (e < s.size() && isName (s[e])) ++e;
        if (e == i + 1) return fail ("bad tag");
        Svg::Element el;
        el.name = s.substr (i + 1, e - i - 1);
        if (open.empty() && root) return fail ("a second root element");
        root = true;
        el.parent = open.empty() ? -1 : open.back();
        bool closed = false;
        for (;;)
        {
            while (e < s.size() && std::isspace ((unsigned char) s[e])) ++e;
            if (e >= s.size()) return fail ("open tag");
            if (s[e] == '>') { ++e; break; }
            if (s.compare (e, 2, "/>") == 0) { closed = true; e += 2; break; }
            size_t n = e;
            while (n < s.size() && isName (s[n])) ++n;
            const std::string key = s.substr (e, n - e);
            if (key.empty() || n + 1 >= s.size() || s[n] != '=' || (s[n + 1] != '"' && s[n + 1] != '\'')) return fail ("bad attribute");
            const auto q = s.find (s[n + 1], n + 2);
            if (q == std::string::npos) return fail ("open attribute");
            const std::string v = s.substr (n + 2, q - n - 2);
            if (v.find ('<') != std::string::npos) return fail ("bad attribute value");
            for (size_t k = 0; k < v.size(); ++k) if (v[k] == '&' && ! entity (n + 2 + k)) return fail ("bare ampersand in an attribute");
            if (! el.attrs.emplace (key, v).second) return fail ("duplicate attribute " + key);
            e = q + 1;
        }
        d.elements.push_back (el);
        if (! closed) open.push_back ((int) d.elements.size() - 1);
        i = e;
    }
    if (! open.empty() || ! root) return fail ("unclosed elements");
    if (d.elements[0].name != "svg") return fail ("the root element is not svg");
    return d;
}

struct PlotLine { std::vector<std::pair<double, double>> points; bool bad = false; };
struct Panel
{
    std::vector<PlotLine> lines;
    std::string title;
    std::vector<std::pair<double, double>> ticks;  // time, x
};

inline PlotLine parsePath (const std::string& p)
{
    PlotLine l;
    std::istringstream s (p);
    std::string w;
    std::vector<double> n;
    bool first = true;
    while (s >> w)
    {
        if (w[0] == 'M' || w[0] == 'L') { if (w[0] == 'M' && ! first) l.bad = true; w = w.substr (1); }
        first = false;
        if (w.empty()) continue;
        char* end = nullptr;
        n.push_back (std::strtod (w.c_str(), &end));
        if (*end != 0 || ! std::isfinite (n.back())) l.bad = true;
    }
    if (n.size() % 2) l.bad = true;
    for (size_t i = 0; i + 1 < n.size(); i += 2) l.points.emplace_back (n[i], n[i + 1]);
    return l;
}

/// the panels in document order; lines in the order in which they were added
inline std::vector<Panel> panelsOf (const Svg& d)
{
    std::vector<Panel> out;
    std::map<std::string, size_t> byPlace;
    for (int e = 0; e < (int) d.elements.size(); ++e)
        if (d.elements[(size_t) e].name == "path" && d.hasClass (e, "svg-plot-line"))
        {
            const std::string at = d.place (e);
            if (byPlace.count (at) == 0) { byPlace[at] = out.size(); out.emplace_back(); }
            out[byPlace[at]].lines.push_back (parsePath (d.attr (e, "d")));
        }
    for (int e = 0; e < (int) d.elements.size(); ++e)
        if (d.elements[(size_t) e].name == "text" && byPlace.count (d.place (e)))
        {
            auto& p = out[byPlace[d.place (e)]];
            if (d.hasClass (e, "svg-plot-title")) p.title = d.elements[(size_t) e].text;
            if (d.hasClass (e, "svg-plot-value") && d.attr (e, "style").empty()) p.ticks.emplace_back (std::atof (d.elements[(size_t) e].text.c_str()), std::atof (d.attr (e, "x").c_str()));
        }
    return out;
}

/// whether `line` shows `v` frame by frame at x = a * frame, y = p - q * value
inline std::string compareLine (const PlotLine& line, const std::vector<double>& v, double a, double p, double q)
{
    if (line.bad) return "it is broken";
    if (line.points.empty()) return "it has no points";
    const double tol = 0.06;
    std::vector<size_t> at;
    for (auto& pt : line.points)
    {
        const double guess = a > 0 ? pt.first / a : 0;
        const long lo = std::max (0L, (long) std::floor (guess - 0.03 / std::max (a, 1e-9) - 0.001)), hi = std::min ((long) v.size() - 1, (long) std::ceil (guess + 0.03 / std::max (a, 1e-9) + 0.001));
        long found = -1;
        for (long f = std::max (lo, at.empty() ? 0L : (long) at.back()); f <= hi && found < 0; ++f)
            if (std::abs (a * (double) f - pt.first) <= tol && std::abs (p - q * v[(size_t) f] - pt.second) <= tol) found = f;
        if (found < 0) return hv::cat ("its point (", pt.first, ", ", pt.second, ") is not a sample of the channel");
        at.push_back ((size_t) found);
    }
    // several frames may fall on the same place of the drawing
    if (std::abs (a * (double) (v.size() - 1) - line.points.back().first) <= tol && std::abs (p - q * v.back() - line.points.back().second) <= tol) at.back() = v.size() - 1;
    if (at.front() != 0) return hv::cat ("it starts at frame ", at.front());
    if (at.back() != v.size() - 1) return hv::cat ("it ends at frame ", at.back(), " of ", v.size());
    for (size_t i = 0; i + 1 < at.size(); ++i)
        for (size_t f = at[i] + 1; f < at[i + 1]; ++f)
        {
            const double fx = a * (double) f, fy = p - q * v[f];
            auto near = [&] (size_t j)
            {
                const double x0 = line.points[j].first, y0 = line.points[j].second, dx = line.points[j + 1].first - x0, dy = line.points[j + 1].second - y0, len = std::hypot (dx, dy);
                const double x = fx - x0, y = fy - y0;
                const double t = len > 0 ? std::max (0.0, std::min (1.0, (x * dx + y * dy) / (len * len))) : 0;
                return std::hypot (x - t * dx, y - t * dy) <= tol;
            };
            // frames closer to each other than the drawing's resolution may be meant by the segments nearby
            bool on = near (i);
            if (a < 0.07)
            {
                for (size_t j = i; ! on && j-- > 0 && line.points[j + 1].first >= fx - tol;) on = near (j);
                for (size_t j = i + 1; ! on && j + 1 < at.size() && line.points[j].first <= fx + tol; ++j) on = near (j);
            }
            if (! on) return hv::cat ("frame ", f, " is not on the line");
        }
    return "";
}

/// compares a panel with the audio; a is the width of a frame
inline std::string comparePanel (const Panel& panel, const std::vector<std::vector<double>>& audio, double a)
{
    if (panel.lines.size() != audio.size()) return hv::cat (panel.lines.size(), " lines for ", audio.size(), " channels");
    for (auto& l : panel.lines) if (l.bad || l.points.empty()) return "a line is broken or empty";
    std::string e;
    for (int order = 0; order < 2; ++order)  // the lines are drawn in the reverse order, but that does not matter
    {
        auto lineOf = [&] (size_t c) -> const PlotLine& { return panel.lines[order == 0 ? audio.size() - 1 - c : c]; };
        // the vertical placement, from the points that show the smallest and the largest value
        double lo = INFINITY, hi = -INFINITY, yLo = 0, yHi = 0;
        for (size_t c = 0; c < audio.size(); ++c)
            for (auto& pt : lineOf (c).points)
            {
                const long f = a > 0 ? std::lround (pt.first / a) : 0;
                if (f < 0 || f >= (long) audio[c].size()) return hv::cat ("a point at x = ", pt.first, " lies beyond the audio");
                const double v = audio[c][(size_t) f];
                if (v < lo) { lo = v; yLo = pt.second; }
                if (v > hi) { hi = v; yHi = pt.second; }
            }
        // a peak of few frames may fall between the points' frames: its place then comes from the extremes of the drawing
        double lo2 = INFINITY, hi2 = -INFINITY, yLo2 = -INFINITY, yHi2 = INFINITY;
        for (size_t c = 0; c < audio.size(); ++c)
        {
            for (double v : audio[c]) { lo2 = std::min (lo2, v); hi2 = std::max (hi2, v); }
            for (auto& pt : lineOf (c).points) { yLo2 = std::max (yLo2, pt.second); yHi2 = std::min (yHi2, pt.second); }
        }
        std::string mine;
        for (int way = 0; way < 2; ++way)
        {
            if (way == 1) { lo = lo2; hi = hi2; yLo = yLo2; yHi = yHi2; }
            const bool flat = ! (hi - lo > 2e-4 * std::max (std::abs (hi), std::abs (lo)));  // too close to be told apart in the drawing
            const double q = flat ? 0 : (yLo - yHi) / (hi - lo), p = yHi + q * hi;
            std::string now;
            if (! flat && ! (q > 0)) now = "larger values are not placed higher";
            for (size_t c = 0; c < audio.size() && now.empty(); ++c)
            {
                now = compareLine (lineOf (c), audio[c], a, p, q);
                if (! now.empty()) now = hv::cat ("line of channel ", c, ": ", now);
            }
            if (now.empty()) return "";
            if (way == 0) mine = now;
        }
        if (order == 0) e = mine;
    }
    return e;
}

struct PlotVerdict { std::string key, error; size_t lines = 0, marks = 0; };

/// compares a plot's text with the audio of a run
inline PlotVerdict comparePlot (const std::string& text, const std::vector<std::vector<double>>& input, const std::vector<std::vector<double>>& output, double rate)
{
    PlotVerdict v;
    auto fail = [&] (const std::string& key, const std::string& e) { v.key = key; v.error = e; return v; };
    const Svg svg = parseSvg (text);
    if (! svg.error.empty()) return fail ("malformed", "the plot is not well-formed: " + svg.error);
    auto panels = panelsOf (svg);
    if (panels.size() != 2) return fail ("panels", hv::cat (panels.size(), " panels with lines instead of 2"));
    if (panels[0].title.find ("utput") != std::string::npos && panels[1].title.find ("nput") != std::string::npos) std::swap (panels[0], panels[1]);
    for (int k = 0; k < 2; ++k)
        if (panels[(size_t) k].title.find (k ? "utput" : "nput") == std::string::npos) return fail ("title", hv::cat ("the panel of the ", k ? "output" : "input", " has the title '", panels[(size_t) k].title, "'"));
    // the width of a frame, from the ends of the lines
    double last[2];
    for (int k = 0; k < 2; ++k)
    {
        last[k] = 0;
        for (auto& l : panels[(size_t) k].lines)
        {
            if (l.points.empty()) return fail ("no-line", hv::cat (k ? "output" : "input", ": a channel has no line"));
            last[k] = std::max (last[k], l.points.back().first);
        }
    }
    if (std::abs (last[0] - last[1]) > 0.021) return fail ("different-time-axes", hv::cat ("the input ends at x = ", last[0], ", the output at ", last[1]));
    const size_t frames = output.empty() ? 0 : output[0].size();
    const double a = frames > 1 ? last[0] / (double) (frames - 1) : 0.0;
    for (int k = 0; k < 2; ++k)
    {
        const auto e = comparePanel (panels[(size_t) k], k ? output : input, a);
        if (! e.empty()) return fail (k ? "output" : "input", hv::cat (k ? "output: " : "input: ", e));
        if (frames > 1)
            for (auto& t : panels[(size_t) k].ticks)
                if (std::abs (t.second - t.first * rate * a) > 0.03 + 1e-3 * std::abs (t.second))
                    return fail ("time-axis", hv::cat ("the mark for ", t.first, " s is at x = ", t.second, ", the audio of that time at ", t.first * rate * a));
        v.lines += k ? output.size() : input.size();
        v.marks += panels[(size_t) k].ticks.size();
    }
    return v;
}

inline std::vector<std::vector<double>> asDoubles (const std::vector<std::vector<float>>& p) { std::vector<std::vector<double>> o; for (auto& c : p) o.emplace_back (c.begin(), c.end()); return o; }
inline std::vector<std::vector<double>> asDoubles (const std::vector<std::vector<double>>& p) { return p; }

}  // namespace hp
