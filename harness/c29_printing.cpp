// C29: printing writes the complete value to the chosen stream.
#include "model.hpp"
#include "all.hpp"
#include <dataframe/view/Vector.h>
#include <dataframe/Dataframe.h>
#include <dataframe/utils/utils.h>
#include <iomanip>
#include <sstream>

namespace {
using ::show;
// What the standard streams receive while it exists
struct Capture {
    std::ostringstream out, err, log;
    std::streambuf *o, *e, *l;
    Capture() {
        o = std::cout.rdbuf(out.rdbuf());
        e = std::cerr.rdbuf(err.rdbuf());
        l = std::clog.rdbuf(log.rdbuf());
    }
    void end() {
        if (o) {
            std::cout.rdbuf(o);
            std::cerr.rdbuf(e);
            std::clog.rdbuf(l);
            o = nullptr;
        }
    }
    ~Capture() { end(); }
};
// A formatting state
struct Fmt {
    int kind = 0, prec = 6;
    bool pos = false, point = false, upper = false;
    void apply(std::ios &s) const {
        s.copyfmt(std::ios(nullptr));
        s.precision(prec);
        switch (kind) {
        case 1:
            s.setf(std::ios::fixed, std::ios::floatfield);
            break;
        case 2:
            s.setf(std::ios::scientific, std::ios::floatfield);
            break;
        case 3:
            s.setf(std::ios::fixed | std::ios::scientific, std::ios::floatfield);
            break;
        }
        if (pos)
            s.setf(std::ios::showpos);
        if (point)
            s.setf(std::ios::showpoint);
        if (upper)
            s.setf(std::ios::uppercase);
    }
    bool same(const std::ios &s) const {
        std::ios r(nullptr);
        apply(r);
        return s.flags() == r.flags() && s.precision() == r.precision() && s.width() == r.width() && s.fill() == r.fill();
    }
    std::string number(double d) const {
        std::ostringstream o;
        apply(o);
        o << d;
        return o.str();
    }
};
std::string show(const Fmt &f) {
    return "format " + std::to_string(f.kind) + " precision " + std::to_string(f.prec) + (f.pos ? " showpos" : "") +
           (f.point ? " showpoint" : "") + (f.upper ? " uppercase" : "");
}
Fmt genFmt(Ctx &c) {
    Fmt f;
    if (c.chance(1, 3))
        return f;
    f.kind = (int)c.below(4);
    static const int p[] = {6, 17, 0, 1, 2, 3, 10, 15, 25};
    f.prec = p[c.below(9)];
    f.pos = c.chance(1, 4);
    f.point = c.chance(1, 4);
    f.upper = c.chance(1, 4);
    return f;
}
std::vector<std::string> tokens(const std::string &s) {
    std::vector<std::string> r;
    std::string t;
    for (char ch : s + " ")
        if (strchr("[](),; \t\n", ch)) {
            if (!t.empty())
                r.push_back(t);
            t.clear();
        } else
            t += ch;
    return r;
}
// the values written in text: all of them, in order
void expectValues(const std::string &text, const Array &v, const Fmt &f, const std::string &what) {
    size_t a = text.find('['), b = text.rfind(']');
    CHECK(a != std::string::npos && b != std::string::npos && a < b, what, ": no list of values in \"", text, "\"");
    auto t = tokens(text.substr(a, b - a));
    CHECK(t.size() == v.size(), what, ": ", t.size(), " values written instead of ", v.size());
    for (size_t i = 0; i < v.size(); ++i)
        CHECK(t[i] == f.number(v[i]), what, ": value ", i, " is written ", t[i], " instead of ", f.number(v[i]));
}
void expectSerie(const std::string &text, const M &m, const Fmt &f, const std::string &what) {
    std::istringstream in(text.substr(0, text.find('[')));
    std::string l;
    int seen = 0;
    while (std::getline(in, l)) {
        auto has = [&](const char *k, uint64_t v) {
            if (l.find(k) == std::string::npos)
                return;
            ++seen;
            auto t = tokens(l.substr(l.find(k) + strlen(k)));
            bool found = false;
            for (auto &x : t)
                found = found || x == std::to_string(v) || x == ":" + std::to_string(v);
            CHECK(found, what, ": the line \"", l, "\" does not hold ", v);
        };
        has("itemSize", m.isz);
        has("count", m.n);
        has("dimension", m.dim);
    }
    CHECK(seen == 3, what, ": the item size, count and dimension are not all written");
    expectValues(text, m.v, f, what);
}
std::vector<std::string> split(const std::string &text, const std::string &at) {
    std::vector<std::string> r;
    size_t p = 0;
    for (;;) {
        size_t q = text.find(at, p);
        r.push_back(text.substr(p, q == std::string::npos ? q : q - p));
        if (q == std::string::npos)
            return r;
        p = q + at.size();
    }
}
void expectSeries(const std::string &text, const std::vector<M> &ms, const Fmt &f, const std::string &what) {
    auto parts = split(text, "Serie:");
    CHECK(parts.size() == ms.size() + 1, what, ": ", parts.size() - 1, " Series written instead of ", ms.size());
    for (size_t i = 0; i < ms.size(); ++i)
        expectSerie(parts[i + 1], ms[i], f, what + ", Serie " + std::to_string(i));
}
void expectNames(const std::string &text, const Strings &names, const std::string &what) {
    auto trim = [](std::string s) {
        while (!s.empty() && isspace((unsigned char)s.back()))
            s.pop_back();
        while (!s.empty() && isspace((unsigned char)s[0]))
            s.erase(0, 1);
        return s;
    };
    std::vector<std::string> got, want;
    for (auto &l : split(text, "\n"))
        if (!trim(l).empty())
            got.push_back(trim(l));
    for (auto &n : names)
        if (!trim(n).empty())
            want.push_back(trim(n));
    CHECK(got == want, what, ": the names written are not those of the list: \"", text, "\"");
}
Array genArray(Ctx &c) { return genValues(c, c.chance(1, 5) ? genCount(c, 0, 2000) : c.below(12), ANY); }
M genS(Ctx &c) { return genM(c, {.prof = ANY, .maxCount = c.chance(1, 10) ? 1500u : 9u, .maxIsz = 12}); }
Strings genNames(Ctx &c) {
    static const Strings n{"a", "Sxx", "positions", "a name", "", "x1", "[b]", "a,b", "long name of a Serie, past sixteen"};
    Strings r;
    int k = (int)c.below(7);
    for (int i = 0; i < k; ++i)
        r.push_back(c.pick(n));
    return r;
}
} // namespace

LAW(stream, 10, "arrays, names, Series and lists of Series, chained on any stream") {
    Fmt f = genFmt(c);
    int target = (int)c.weighted({8, 2, 2, 1}); // a stream, cout, cerr, clog
    int items = (int)c.range(1, 4);
    c.log("to ", target == 0 ? "a stream" : target == 1 ? "cout" : target == 2 ? "cerr" : "clog", ", ", show(f));
    Capture cap;
    std::ostringstream own;
    std::ostream &o = target == 0 ? own : target == 1 ? std::cout : target == 2 ? std::cerr : std::clog;
    auto &buf = target == 0 ? own : target == 1 ? cap.out : target == 2 ? cap.err : cap.log;
    std::ios keep(nullptr);
    keep.copyfmt(o);
    f.apply(o);
    struct Item {
        int kind;
        Array a;
        Strings n;
        std::vector<M> ms;
    };
    std::vector<Item> its;
    bool same = true, fmt = true;
    size_t values = 0;
    std::deque<Serie> ss;
    std::deque<Series> lists;
    std::deque<Serie> all;
    try {
        for (int k = 0; k < items; ++k) {
            Item it;
            it.kind = (int)c.weighted({3, 1, 6, 3});
            std::ostream *r = nullptr;
            const char *mark = "\n#####\n";
            switch (it.kind) {
            case 0:
                it.a = genArray(c);
                c.log("  ", show(it.a));
                values += it.a.size();
                r = &(o << it.a << mark);
                break;
            case 1:
                it.n = genNames(c);
                c.log("  ", it.n.size(), " names");
                r = &(o << it.n << mark);
                break;
            case 2: {
                it.ms.push_back(c.chance(1, 12) ? M::empty(0, 3) : genS(c));
                c.log("  ", show(it.ms[0]));
                values += it.ms[0].v.size();
                Serie s = it.ms[0].isz ? build(c, it.ms[0]) : Serie();
                r = &(o << s << mark);
                if (it.ms[0].isz)
                    expectSame(s, it.ms[0], "the printed Serie", WITH_DIM);
                break;
            }
            default: {
                int n = (int)c.below(5);
                Series l;
                for (int i = 0; i < n; ++i) {
                    it.ms.push_back(genS(c));
                    c.log("  in a list: ", show(it.ms[i]));
                    values += it.ms[i].v.size();
                    l.push_back(build(c, it.ms[i]));
                }
                r = &(o << l << mark);
                for (int i = 0; i < n; ++i)
                    expectSame(l[i], it.ms[i], "a Serie of the printed list", WITH_DIM);
            }
            }
            same = same && r == &o;
            fmt = fmt && f.same(o);
            its.push_back(it);
        }
    } catch (...) {
        o.copyfmt(keep);
        throw;
    }
    o.copyfmt(keep);
    cap.end();
    c.nontrivial(values >= 2);
    CHECK(same, "the operator did not return its stream");
    CHECK(fmt, "the formatting of the stream has changed");
    CHECK(o.good(), "the stream is in error");
    for (auto *b : {&cap.out, &cap.err, &cap.log})
        if (b != &buf)
            CHECK(b->str().empty(), "written to another stream: ", b->str().substr(0, 200));
    auto parts = split(buf.str(), "\n#####\n");
    CHECK(parts.size() == its.size() + 1 && parts.back().empty(), "the stream does not hold what was written after each value");
    for (size_t k = 0; k < its.size(); ++k) {
        std::string what = "output " + std::to_string(k);
        switch (its[k].kind) {
        case 0:
            expectValues(parts[k], its[k].a, f, what);
            break;
        case 1:
            expectNames(parts[k], its[k].n, what);
            break;
        case 2:
            expectSerie(parts[k], its[k].ms[0], f, what);
            break;
        default: {
            auto head = tokens(parts[k].substr(0, parts[k].find("Serie:")));
            CHECK(std::find(head.begin(), head.end(), std::to_string(its[k].ms.size())) != head.end(), what,
                  ": the number of Series is not written: ", parts[k].substr(0, 60));
            expectSeries(parts[k], its[k].ms, f, what);
        }
        }
    }
}

LAW(invalid, 1, "a Serie without items of any size is printed without values, whatever its count was set to") {
    Fmt f = genFmt(c);
    uint32_t k = (uint32_t)c.range(0, 9), dim = (uint32_t)c.range(1, 4);
    Serie s(0, c.flip() ? k : 0, dim);
    bool resized = c.flip();
    if (resized)
        s.reCount(k);
    c.log("an invalid Serie of count ", s.count(), resized ? ", resized" : "", ", with ", show(f));
    c.nontrivial(k > 0);
    M m = M::empty(0, dim);
    m.n = s.count();
    std::ostringstream o;
    f.apply(o);
    o << s;
    expectSerie(o.str(), m, f, "an invalid Serie");
    std::ostringstream l;
    f.apply(l);
    l << df::Series{s, s};
    expectSeries(l.str(), {m, m}, f, "two invalid Series");
}

LAW(print, 6, "print writes each Serie on standard output") {
    Fmt f = genFmt(c);
    Group g;
    int n = (int)c.range(1, 6);
    for (int i = 0; i < n; ++i)
        g.add(c, genS(c));
    c.log("print with ", show(f), " of\n", g.text());
    Capture cap;
    std::ios keep(nullptr);
    keep.copyfmt(std::cout);
    f.apply(std::cout);
    spread(g, [](const auto &...s) { df::utils::print(s...); });
    bool fmt = f.same(std::cout);
    std::cout.copyfmt(keep);
    cap.end();
    size_t values = 0;
    for (auto &m : g.ms)
        values += m.v.size();
    c.nontrivial(values >= 2);
    CHECK(fmt, "the formatting of standard output has changed");
    CHECK(cap.err.str().empty() && cap.log.str().empty(), "print wrote to another stream");
    expectSeries(cap.out.str(), g.ms, f, "print");
    g.unchanged("the Series after print");
}

LAW(dump, 4, "dump of a Serie, of a data frame, and the messages: complete, on their standard stream") {
    Fmt f = genFmt(c);
    int kind = (int)c.weighted({5, 3, 3, 2, 2});
    Capture cap;
    std::ios keepO(nullptr), keepE(nullptr);
    keepO.copyfmt(std::cout);
    keepE.copyfmt(std::cerr);
    f.apply(std::cout);
    f.apply(std::cerr);
    auto end = [&] {
        bool same = f.same(std::cout) && f.same(std::cerr);
        std::cout.copyfmt(keepO);
        std::cerr.copyfmt(keepE);
        cap.end();
        CHECK(same, "the formatting of a standard stream has changed");
    };
    auto only = [&](bool err) {
        CHECK((err ? cap.out : cap.err).str().empty() && cap.log.str().empty(), "written to another standard stream");
        return (err ? cap.err : cap.out).str();
    };
    auto words = [](std::string t) {
        for (auto &ch : t)
            if (ch == ':')
                ch = ' ';
        return tokens(t);
    };
    try {
        if (kind == 0) {
            M m = genS(c);
            c.log("dump with ", show(f), " of ", show(m));
            Serie s = build(c, m);
            s.dump();
            end();
            expectSame(s, m, "the dumped Serie", WITH_DIM);
            auto t = words(only(true));
            CHECK(t.size() == m.v.size() + m.n, "dump of a Serie writes ", t.size(), " indices and values instead of ", m.v.size() + m.n);
            size_t k = 0;
            for (uint32_t i = 0; i < m.n; ++i) {
                CHECK(t[k] == std::to_string(i), "dump of a Serie: index ", i, " is written ", t[k]);
                ++k;
                for (uint32_t j = 0; j < m.isz; ++j, ++k)
                    CHECK(t[k] == f.number(m.at(i, j)), "dump of a Serie: value ", j, " of item ", i, " is written ", t[k]);
            }
            c.nontrivial(m.v.size() >= 2);
        } else if (kind == 1) {
            Array a = genArray(c), b = a;
            c.log("print of ", show(a), " with ", show(f));
            df::print(a);
            end();
            CHECK(sameBits(a, b), "print has changed its array");
            expectValues(only(true), a, f, "print of an array");
            c.nontrivial(a.size() >= 2);
        } else if (kind == 2) {
            df::Dataframe d;
            std::map<std::string, M> in;
            Strings names = genNames(c);
            for (auto &n : names) {
                M m = genS(c);
                d.add(n, build(c, m));
                in[n] = m;
                c.log("  \"", n, "\": ", show(m));
            }
            d.dump();
            end();
            std::vector<std::string> lines;
            for (auto &l : split(only(true), "\n"))
                if (!l.empty())
                    lines.push_back(l);
            CHECK(lines.size() == in.size(), "dump of a data frame of ", in.size(), " Series writes ", lines.size(), " lines");
            size_t k = 0;
            for (auto &[n, m] : in) { // in the order of the names
                size_t at = lines[k].find("\"" + n + "\"");
                CHECK(at != std::string::npos, "dump of a data frame: the name ", n, " is not in \"", lines[k], "\"");
                auto t = words(lines[k].substr(at + n.size() + 2));
                CHECK(t.size() == 4 && t[0] == "itemSize" && t[1] == std::to_string(m.isz) && t[2] == "count" && t[3] == std::to_string(m.n),
                      "dump of a data frame: \"", lines[k], "\" for ", show(m));
                expectSame(d.get(n), m, "a dumped Serie", WITH_DIM);
                ++k;
            }
            c.nontrivial(in.size() >= 2);
        } else if (kind == 4) {
            Array a = genArray(c);
            c.log("toString of the Vector ", show(a));
            df::Vector v(a);
            std::string t = v.toString(), want;
            CHECK(sameBits(v.array(), a), "toString has changed its Vector");
            end();
            CHECK(cap.out.str().empty() && cap.err.str().empty() && cap.log.str().empty(), "toString writes to a standard stream");
            for (double x : a) {
                char buf[400];
                std::snprintf(buf, sizeof buf, "%f\t", x);
                want += buf;
            }
            CHECK(t == want, "toString gives \"", t, "\" instead of \"", want, "\"");
            c.nontrivial(a.size() >= 2);
        } else {
            Strings names = genNames(c);
            std::string msg = names.empty() ? "message" : names[0];
            int which = (int)c.below(4);
            c.log("message ", which, " \"", msg, "\"");
            switch (which) {
            case 0:
                df::info(msg);
                break;
            case 1:
                df::warning(msg);
                break;
            case 2:
                df::error(msg);
                break;
            default:
                df::log(msg, 12, 2.5, "end");
            }
            end();
            std::string t = only(which == 1 || which == 2);
            CHECK(t.find(msg) != std::string::npos, "the message \"", msg, "\" is not in \"", t, "\"");
            if (which == 3) {
                Fmt g = f;
                std::ostringstream o;
                g.apply(o);
                o << msg << ' ' << 12 << ' ' << 2.5 << " end";
                CHECK(t == o.str(), "log wrote \"", t, "\" instead of \"", o.str(), "\"");
            }
            c.nontrivial();
        }
    } catch (...) {
        std::cout.copyfmt(keepO);
        std::cerr.copyfmt(keepE);
        throw;
    }
}

PBT_MAIN("C29",
         "A case streams 1 to 4 arrays (0 to 2000 values, any bits), lists of names, Series or lists of Series on a string "
         "stream, cout, cerr or clog with a generated formatting state, prints 1 to 6 Series, or dumps a Serie, an array or a data frame; what was written is "
         "parsed and compared, the other streams must stay empty. Non-trivial: at least two values.",
         122000, 976000)
