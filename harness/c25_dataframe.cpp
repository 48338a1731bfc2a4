// C25: a Dataframe behaves as a map from names to Series.
#include "model.hpp"
#include <dataframe/Dataframe.h>
#include <dataframe/utils/nameOfSerie.h>

namespace {
using ::show;
struct FrameM {
    uint32_t count = 0;
    std::map<std::string, M> s;
};
const std::vector<std::string> POOL{"a",  "b",         "positions", "indices", "A",        "aa", "ab", "a ", " a", "x",
                                    "xx", "positionsx", "Sxy",       "1",       "été", "",   "S",  "zz.1", "b\n",
                                    "a name that is too long for the small string optimisation of the library",
                                    "a name that is too long for the small string optimisation of the library!"};
// An invalid Serie is a value like another one for a data frame.
M genS(Ctx &c) {
    if (c.chance(1, 14)) {
        M m;
        m.isz = m.n = 0;
        m.dim = Serie().dimension();
        return m;
    }
    return genM(c, {.prof = c.chance(1, 3) ? unsigned(ANY) : unsigned(EXACT), .maxCount = c.chance(1, 20) ? 900u : 12u,
                    .maxIsz = c.chance(1, 20) ? 0u : 9u});
}
Serie make(Ctx &c, const M &m) { return m.isz ? build(c, m) : Serie(); }
void add(FrameM &f, const std::string &n, const M &m) {
    if (f.count == 0)
        f.count = m.n;
    f.s[n] = m;
}
void setCount(FrameM &f, uint32_t k) {
    if (k == 0 || k == f.count)
        return;
    f.count = k;
    for (auto &e : f.s) {
        e.second.n = e.second.isz ? k : 0;
        e.second.v.assign(size_t(k) * e.second.isz, 0.0);
    }
}
std::string q(const std::string &n) { return "\"" + n + "\""; }
void compare(const df::Dataframe &d, const FrameM &f, const std::string &what) {
    auto &st = d.series();
    for (auto &e : f.s)
        CHECK(st.count(e.first), what, ": the Serie ", q(e.first), " is missing");
    for (auto &e : st)
        CHECK(f.s.count(e.first), what, ": holds a Serie ", q(e.first), " that was not added, or was deleted");
    CHECK(st.size() == f.s.size(), what, ": ", st.size(), " Series, expected ", f.s.size());
    for (auto &e : f.s) {
        expectSame(st.at(e.first), e.second, what + ": stored Serie " + q(e.first), WITH_DIM);
        expectSame(d.get(e.first), e.second, what + ": get of " + q(e.first), WITH_DIM);
        expectSame(d[e.first], e.second, what + ": operator[] of " + q(e.first), WITH_DIM);
    }
    for (auto &n : POOL) {
        bool in = f.s.count(n);
        CHECK(d.contains(n) == in, what, ": contains(", q(n), ") is ", !in);
        if (!in) {
            CHECK(!d.get(n).isValid() && d.get(n).count() == 0 && d.get(n).asArray().empty(), what,
                  ": get of the missing ", q(n), " gives a valid Serie");
            CHECK(!d[n].isValid() && d[n].count() == 0 && d[n].asArray().empty(), what, ": operator[] of the missing ",
                  q(n), " gives a valid Serie");
        } else if (!n.empty()) {
            CHECK(d.contains(d.get(n)) && d.contains(d[n]), what, ": contains of the stored Serie ", q(n), " is false");
            CHECK(df::nameOfSerie(d, d.get(n)) == n, what, ": nameOfSerie of the Serie ", q(n), " is ",
                  q(df::nameOfSerie(d, d.get(n))));
        }
    }
    CHECK(st.size() == f.s.size(), what, ": looking up names added ", st.size() - f.s.size(), " Series");
}
} // namespace

LAW(history, 10, "any history of data frame operations, on two frames") {
    df::Dataframe d[2];
    FrameM f[2];
    for (int k = 0; k < 2; ++k)
        if (c.chance(1, 4)) {
            f[k].count = (uint32_t)c.range(1, 9);
            d[k] = df::Dataframe(f[k].count);
            c.log("frame ", k, " is made for ", f[k].count, " items");
        }
    std::deque<Serie> src; // Series of the user
    std::deque<M> srcM;
    size_t names = (size_t)c.range(2, POOL.size());
    auto name = [&] { return POOL[c.below(names)]; };
    int steps = (int)c.range(2, c.chance(1, 10) ? 60 : 20), writes = 0, replaced = 0, resized = 0, deleted = 0;
    for (int st = 0; st < steps; ++st) {
        int k = (int)c.below(2);
        df::Dataframe &D = d[k];
        FrameM &F = f[k];
        auto existing = [&](std::string &n) {
            if (F.s.empty())
                return false;
            auto it = F.s.begin();
            std::advance(it, c.below(F.s.size()));
            n = it->first;
            return true;
        };
        std::string n, what = "frame " + std::to_string(k) + " after step " + std::to_string(st) + ", ";
        switch (c.weighted({8, 4, 3, 3, 1, 6, 4, 3, 4, 3, 1, 2})) {
        case 0: { // add or set
            n = name();
            M m = genS(c);
            if (m.isz && c.chance(1, 3) && F.count) { // with the count of the frame
                m.n = F.count;
                m.v = genValues(c, size_t(m.n) * m.isz, EXACT);
            }
            bool a = c.flip();
            c.log(st, ": frame ", k, a ? " add(" : " set(", q(n), ", ", show(m), ")");
            src.push_back(make(c, m));
            srcM.push_back(m);
            replaced += F.s.count(n);
            a ? D.add(n, src.back()) : D.set(n, src.back());
            add(F, n, m);
            what += "add " + q(n);
            break;
        }
        case 1: { // the source changes
            if (src.empty())
                continue;
            size_t i = c.below(src.size());
            c.log(st, ": the added Serie number ", i, " is changed");
            ++writes;
            if (srcM[i].n && c.chance(3, 4)) {
                size_t at = c.below(srcM[i].v.size());
                src[i].setScalar(at, 123.25);
                srcM[i].v[at] = 123.25;
            } else {
                src[i].reCount(2);
                srcM[i].n = srcM[i].isz ? 2 : 0;
                srcM[i].v.assign(2 * size_t(srcM[i].isz), 0.0);
            }
            what += "change of an added Serie";
            break;
        }
        case 2: // a Serie of a frame is added under another name, or in the other frame
            if (!existing(n))
                continue;
            {
                int t = (int)c.below(2);
                std::string to = c.chance(1, 6) ? n : name();
                M m = F.s[n];
                c.log(st, ": frame ", t, " add(", q(to), ", frame ", k, " ", q(n), ")");
                replaced += f[t].s.count(to);
                if (c.flip())
                    d[t].add(to, D.get(n));
                else
                    d[t].set(to, static_cast<const df::Dataframe &>(D)[n]);
                add(f[t], to, m);
                what += "add of a stored Serie as " + q(to);
            }
            break;
        case 3: { // create
            n = name();
            uint32_t isz = genItemSize(c, 9), cnt = (uint32_t)c.range(1, 9);
            c.log(st, ": frame ", k, " create(", q(n), ", ", isz, ", ", cnt, ")");
            replaced += F.s.count(n);
            D.create(n, isz, cnt);
            add(F, n, M::make(isz, Array(size_t(isz) * cnt, 0.0)));
            what += "create " + q(n);
            break;
        }
        case 4:
            c.log(st, ": frame ", k, " clear()");
            D.clear();
            F.s.clear();
            ++deleted;
            what += "clear";
            break;
        case 5: // del
            if (!(c.chance(3, 4) && existing(n)))
                n = name();
            c.log(st, ": frame ", k, " del(", q(n), ")");
            D.del(n);
            deleted += F.s.erase(n);
            what += "del " + q(n);
            break;
        case 6: // write through
            if (!existing(n))
                continue;
            {
                M &m = F.s[n];
                ++writes;
                Serie &s = c.flip() ? D[n] : D.get(n);
                if (m.n == 0)
                    continue;
                size_t at = c.below(m.v.size());
                double x = double(c.range(-50, 50)) / 4;
                c.log(st, ": frame ", k, " ", q(n), " value ", at, " = ", num(x));
                if (m.isz > 1 && c.flip()) {
                    Array item(m.isz, x);
                    s.set(at / m.isz, item);
                    for (uint32_t j = 0; j < m.isz; ++j)
                        m.v[at / m.isz * m.isz + j] = x;
                } else {
                    s.setScalar(at, x);
                    m.v[at] = x;
                }
                what += "write to " + q(n);
            }
            break;
        case 7: { // assignment through the non const access, new name or not
            n = name();
            M m = genS(c);
            c.log(st, ": frame ", k, " [", q(n), "] = ", show(m));
            replaced += F.s.count(n);
            if (c.flip())
                D[n] = make(c, m);
            else
                D.get(n) = make(c, m);
            F.s[n] = m;
            what += "assignment to " + q(n);
            break;
        }
        case 8: { // setCount
            uint32_t cnt = c.chance(1, 4) ? F.count : c.chance(1, 5) ? 0 : (uint32_t)c.range(1, 20);
            c.log(st, ": frame ", k, " setCount(", cnt, ")");
            resized += cnt && cnt != F.count && !F.s.empty();
            D.setCount(cnt);
            setCount(F, cnt);
            what += "setCount";
            break;
        }
        case 9: { // const look up
            n = name();
            const df::Dataframe &C = D;
            c.log(st, ": look up of ", q(n), " in frame ", k);
            Serie copy = c.flip() ? C[n] : C.get(n);
            if (F.s.count(n))
                expectSame(copy, F.s[n], "look up of " + q(n), WITH_DIM);
            else
                CHECK(!copy.isValid(), "look up of the missing ", q(n), " gives a valid Serie");
            copy = Serie(2, Array{1, 2}); // a copy: no effect
            CHECK(!C.contains(copy), "a Serie out of the frame is said to be in it");
            CHECK(df::nameOfSerie(C, copy).empty(), "a Serie out of the frame has a name in it");
            what += "look up of " + q(n);
            break;
        }
        case 10: // copy of a frame
            c.log(st, ": frame ", 1 - k, " = frame ", k);
            if (c.flip())
                d[1 - k] = D;
            else {
                df::Dataframe copy(D);
                d[1 - k] = copy;
            }
            f[1 - k] = F;
            what += "copy";
            break;
        case 11: { // same names in both: frames are separate objects
            if (!existing(n) || n.empty())
                continue;
            const Serie &s = static_cast<const df::Dataframe &>(D).get(n);
            CHECK(!d[1 - k].contains(s), "frame ", 1 - k, " contains a Serie of frame ", k);
            break;
        }
        }
        compare(d[0], f[0], what + " (frame 0)");
        compare(d[1], f[1], what + " (frame 1)");
        for (size_t i = 0; i < src.size(); ++i)
            expectSame(src[i], srcM[i], what + ": Serie number " + std::to_string(i) + " of the user", WITH_DIM);
    }
    c.nontrivial(replaced + resized + deleted + writes >= 2);
    if (replaced)
        c.label("a Serie replaced");
    if (resized)
        c.label("resized");
    if (deleted)
        c.label("deleted");
    if (writes)
        c.label("written");
}

LAW(many, 2, "frames of many Series") {
    df::Dataframe d;
    FrameM f;
    int k = (int)c.range(10, 120);
    uint32_t cnt = (uint32_t)c.range(1, 8);
    uint64_t seed = c.below(1 << 16);
    c.log(k, " Series of ", cnt, " items, seed ", seed);
    c.nontrivial();
    for (int i = 0; i < k; ++i) {
        uint64_t h = pbt::mix64(seed + i);
        M m;
        m.isz = 1 + h % 6;
        m.n = cnt;
        m.dim = h % 2 ? 2 : 3;
        for (uint32_t j = 0; j < m.isz * m.n; ++j)
            m.v.push_back(double((h + j * 31) % 1000));
        std::string n = "s" + std::to_string(pbt::mix64(h) % 60);
        if (h % 11 == 0) {
            d.del(n);
            f.s.erase(n);
        } else {
            d.add(n, direct(m));
            add(f, n, m);
        }
    }
    compare(d, f, "the frame");
    uint32_t other = cnt + 1 + (uint32_t)c.below(5);
    d.setCount(other);
    setCount(f, other);
    compare(d, f, "the frame after setCount");
}

PBT_MAIN("C25", "the history replaces, deletes, resizes or writes at least twice", 96000, 768000)
