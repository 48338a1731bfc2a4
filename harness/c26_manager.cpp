// C26: every attribute a Manager advertises exists and is right.
#include "model.hpp"
#include "all.hpp"
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/attributes/Valence.h>
#include <memory>

namespace {
using ::show;
using Frame = std::map<std::string, M>;
std::string q(const std::string &n) { return "\"" + n + "\""; }

enum Kind { COORD, COMP, EVAL, EVEC, NORMALS, AREA, VALENCE, USER, PROBE, PLAIN };
struct DecM { // model of a decomposer
    int kind = COMP, id = 0;
    std::string name;
    Strings names;
    uint32_t isz = 1; // USER
    int cb = 0;
    std::string text() const {
        static const char *k[] = {"Coordinates", "Components", "EigenValues", "EigenVectors", "Normals",
                                  "Area",        "Valence",    "UserDefined", "Probe",        "Decomposer"};
        std::string t = k[kind];
        if (kind == COORD)
            for (auto &n : names)
                t += " " + n;
        if (!name.empty())
            t += " " + name;
        if (kind == USER)
            t += " of item size " + std::to_string(isz) + ", callback " + std::to_string(cb);
        return t;
    }
};

struct Life {
    std::vector<int> destroyed;
};
// A decomposer of the user: gives the opposite of each Serie, and counts its destructions.
struct Probe : df::Decomposer {
    std::shared_ptr<Life> life;
    int id;
    std::string suffix;
    Probe(std::shared_ptr<Life> l, int i, std::string s) : life(l), id(i), suffix(s) {}
    ~Probe() { ++life->destroyed[id]; }
    Strings names(const df::Dataframe &, uint32_t itemSize, const Serie &s, const String &name) const override {
        if (name == "positions" || name == "indices" || s.itemSize() != itemSize)
            return Strings();
        return Strings{name + suffix};
    }
    Serie serie(const df::Dataframe &d, uint32_t itemSize, const String &name) const override {
        if (name.size() < suffix.size() || name.substr(name.size() - suffix.size()) != suffix)
            return Serie();
        std::string n = name.substr(0, name.size() - suffix.size());
        const Serie &s = d[n];
        if (n == "positions" || n == "indices" || !s.isValid() || s.itemSize() != itemSize)
            return Serie();
        return df::math::negate(s);
    }
};
// A library decomposer whose destructions are counted
template <class D> struct Counted : D {
    std::shared_ptr<Life> life;
    int id;
    template <class... A> Counted(std::shared_ptr<Life> l, int i, A... a) : D(a...), life(l), id(i) {}
    ~Counted() { ++life->destroyed[id]; }
};

// ---- callbacks of the user defined decomposers
bool cbGives(const Frame &f, const DecM &d, M &out) {
    switch (d.cb) {
    case 0: // a constant
        out = M::make(d.isz, Array(d.isz * 3, 4.5));
        return true;
    case 1: // depends on the frame: one item per Serie
        out = M::make(d.isz, Array(d.isz * f.size(), double(f.size())));
        return !f.empty();
    case 2: // only when the frame holds U
        if (auto it = f.find("U"); it != f.end()) {
            out = M::make(d.isz, Array(d.isz * it->second.n, it->second.v[0]));
            return true;
        }
        return false;
    default:
        return false;
    }
}
Serie cbRun(const df::Dataframe &df, uint32_t isz, int cb) {
    size_t n = df.series().size();
    switch (cb) {
    case 0:
        return Serie((int)isz, Array(isz * 3, 4.5));
    case 1:
        return n ? Serie((int)isz, Array(isz * n, double(n))) : Serie();
    case 2:
        if (df.contains(String("U")))
            return Serie((int)isz, Array(isz * df["U"].count(), df["U"].asArray()[0]));
        return Serie();
    default:
        return Serie();
    }
}

df::Decomposer *make(const DecM &d, std::shared_ptr<Life> life) {
    life->destroyed.resize(std::max<size_t>(life->destroyed.size(), d.id + 1));
    switch (d.kind) {
    case COORD:
        if (d.cb == 1)
            return new Counted<df::Coordinates>(life, d.id);
        return new Counted<df::Coordinates>(life, d.id, d.names);
    case COMP:
        return new Counted<df::Components>(life, d.id);
    case EVAL:
        return new Counted<df::EigenValues>(life, d.id);
    case EVEC:
        return new Counted<df::EigenVectors>(life, d.id);
    case NORMALS:
        return new Counted<df::Normals>(life, d.id, d.name);
    case AREA:
        return new Counted<df::Area>(life, d.id, d.name);
    case VALENCE:
        return new Counted<df::Valence>(life, d.id, d.name);
    case USER: {
        uint32_t isz = d.isz;
        int cb = d.cb;
        auto f = [isz, cb, heavy = std::vector<double>(20, 1.0)](const df::Dataframe &x) {
            return cbRun(x, heavy[19] == 1.0 ? isz : 99, cb);
        };
        using F = decltype(f);
        struct U : df::UserDefinedDecomposer<F> {
            std::shared_ptr<Life> life;
            int id;
            U(std::shared_ptr<Life> l, int i, uint s, const String &n, F f)
                : df::UserDefinedDecomposer<F>(s, n, std::move(f)), life(l), id(i) {}
            ~U() { ++life->destroyed[id]; }
        };
        return new U(life, d.id, isz, d.name, f);
    }
    case PROBE:
        return new Probe(life, d.id, d.name);
    default:
        return new Counted<df::Decomposer>(life, d.id);
    }
}

// ---- the model: every (name, value) a decomposer provides for an item size
struct Offer {
    std::string name;
    M m;
    double scale = 0; // 0: exact
    bool listed = true;
};
M column(const M &m, uint32_t k, uint32_t w = 1) {
    M r = M::empty(w, m.dim);
    for (uint32_t i = 0; i < m.n; ++i)
        for (uint32_t j = 0; j < w; ++j)
            r.v.push_back(m.at(i, k * w + j));
    r.n = m.n;
    return r;
}
bool special(const std::string &n) { return n == "positions" || n == "indices"; }
Strings suffixes(const M &m) {
    static const std::map<int, Strings> two{{2, {"x", "y"}}, {3, {"xx", "xy", "yy"}}, {4, {"xx", "xy", "yx", "yy"}}};
    static const std::map<int, Strings> three{{3, {"x", "y", "z"}},
                                              {6, {"xx", "xy", "xz", "yy", "yz", "zz"}},
                                              {9, {"xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"}}};
    auto &t = m.dim == 2 ? two : three;
    auto it = t.find(m.isz);
    if (it != t.end())
        return it->second;
    Strings r;
    for (uint32_t i = 0; i < m.isz; ++i)
        r.push_back(std::to_string(i));
    return r;
}
double magnitude(const Array &a) {
    double m = 0;
    for (double d : a)
        m = std::max(m, std::fabs(d));
    return m;
}
void offers(const Frame &f, const DecM &d, uint32_t isz, std::vector<Offer> &out) {
    // triangles between points there are (points of space, for the normals)
    auto mesh = [&](bool space) {
        if (!f.count("positions") || !f.count("indices"))
            return false;
        const M &p = f.at("positions"), &t = f.at("indices");
        if (t.isz != 3 || (space && p.isz != 3))
            return false;
        for (double k : t.v)
            if (!(k >= 0 && k < p.n))
                return false;
        return true;
    };
    auto P = [&] { return direct(f.at("positions")); };
    auto I = [&] { return direct(f.at("indices")); };
    switch (d.kind) {
    case COORD:
        if (isz == 1 && f.count("positions")) {
            const M &p = f.at("positions");
            Strings names = d.cb == 1 ? Strings{"x", "y", "z"} : d.names;
            for (size_t i = 0; i < names.size() && i < p.isz; ++i)
                out.push_back({names[i], column(p, i)});
        }
        break;
    case COMP:
        if (isz == 1)
            for (auto &e : f)
                if (!special(e.first) && e.second.isz > 1) {
                    auto s = suffixes(e.second);
                    for (size_t i = 0; i < s.size(); ++i)
                        out.push_back({e.first + s[i], column(e.second, i)});
                }
        break;
    case EVAL:
    case EVEC:
        for (auto &e : f) {
            uint32_t dim = e.second.dim;
            if (special(e.first) || e.second.isz != (dim == 2 ? 3 : 6) || isz != (d.kind == EVAL ? 1 : dim))
                continue;
            Serie s = direct(e.second);
            M r = modelOf(d.kind == EVAL ? df::algebra::eigenValues(s) : df::algebra::eigenVectors(s));
            for (uint32_t i = 0; i < dim; ++i)
                out.push_back({e.first + std::to_string(i + 1), column(r, i, isz),
                               d.kind == EVAL ? std::max(1e-300, magnitude(e.second.v)) : 1.0});
        }
        break;
    case NORMALS:
        if (isz == 3 && mesh(true)) {
            M r = modelOf(df::geo::normals(P(), I()));
            out.push_back({d.name, r, std::max(1e-300, magnitude(r.v))});
        }
        break;
    case AREA:
        if (isz == 1 && mesh(true)) {
            M r = modelOf(df::algebra::norm(df::geo::normals(P(), I())));
            for (auto &x : r.v)
                x /= 2;
            out.push_back({d.name, r, std::max(1e-300, magnitude(r.v))});
        }
        break;
    case VALENCE:
        if (isz == 1 && mesh(false)) {
            M r = M::make(1, Array(f.at("positions").n, 0.0));
            for (double k : f.at("indices").v)
                r.v[(size_t)k] += 1;
            out.push_back({d.name, r});
        }
        break;
    case USER: {
        M r;
        if (isz == d.isz && cbGives(f, d, r))
            out.push_back({d.name, r});
        break;
    }
    case PROBE:
        for (auto &e : f)
            if (!special(e.first) && e.second.isz == isz) {
                M r = e.second;
                for (auto &x : r.v)
                    x = -x;
                out.push_back({e.first + d.name, r});
            }
        break;
    }
}
bool is(const Serie &s, const Offer &o) {
    if (s.itemSize() != o.m.isz || s.count() != o.m.n || s.asArray().size() != o.m.v.size())
        return false;
    for (size_t i = 0; i < o.m.v.size(); ++i)
        if (!(o.scale > 0 ? close(s.asArray()[i], o.m.v[i], o.scale, 1e-9) : sameBits(s.asArray()[i], o.m.v[i])))
            return false;
    return true;
}

// ---- generators
const std::vector<std::string> POOL{"S", "",  "S1", "S2", "Sx", "Sxx", "U",  "U0",  "U1", "U10", "x",
                                    "y",  "area", "normals", "val", "Ux", "Uxy", "xx", "1x",  "a long name of a Serie, past sixteen characters"};
M genStored(Ctx &c, unsigned dim) {
    static const uint32_t sizes[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 101};
    uint32_t isz = sizes[c.weighted({6, 4, 8, 3, 2, 8, 1, 1, 5, 1, 1, 2, 1, 1})];
    return genM(c, {.prof = INTS | DYADIC | IDENT | REAL, .minCount = 1, .maxCount = c.chance(1, 60) ? 300u : 8u, .isz = isz,
                    .dim = c.chance(5, 6) ? dim : 5 - dim});
}
M genTriangles(Ctx &c, uint32_t np) {
    M t = M::empty(3, 3);
    int n = (int)c.range(1, 6);
    for (int i = 0; i < n; ++i)
        t.push({double(c.below(np)), double(c.below(np)), double(c.below(np))});
    return t;
}
void genGeometry(Ctx &c, Frame &f) {
    f.erase("positions");
    f.erase("indices");
    switch (c.weighted({6, 2, 1, 2, 3})) {
    case 4: { // positions and indices that make no mesh, or no mesh of space
        uint32_t pz = c.flip() ? 3u : (uint32_t)c.range(1, 4), tz = c.flip() ? 3u : (uint32_t)c.range(1, 4);
        M p = genM(c, {.prof = INTS | DYADIC, .minCount = 1, .maxCount = 7, .isz = pz, .dim = pz == 2 ? 2u : 3u});
        M t = genTriangles(c, p.n);
        if (tz != 3) {
            t.isz = tz;
            t.n = t.v.size() / tz;
            t.v.resize(size_t(t.n) * tz);
        }
        if (c.flip()) {
            static const double bad[] = {-1, -0.5, -1e9, 1e9, 4294967296.0, std::numeric_limits<double>::quiet_NaN(),
                                         std::numeric_limits<double>::infinity()};
            uint32_t k = (uint32_t)c.below(9);
            if (!t.v.empty())
                t.v[c.flip() ? t.v.size() - 1 : c.below(t.v.size())] = k < 7 ? bad[k] : double(p.n + k - 7);
        }
        f["positions"] = p;
        f["indices"] = t;
        break;
    }
    case 0: // a mesh
        f["positions"] = genM(c, {.prof = INTS | DYADIC | REAL, .minCount = 1, .maxCount = 7, .isz = 3, .dim = 3});
        f["indices"] = genTriangles(c, f["positions"].n);
        break;
    case 1:
        f["positions"] = genM(c, {.prof = INTS | DYADIC, .minCount = 1, .maxCount = 7, .isz = 3, .dim = 3});
        break;
    case 2:
        f["indices"] = genTriangles(c, 5);
        break;
    default: // points of the plane
        f["positions"] = genM(c, {.prof = INTS | DYADIC, .minCount = 1, .maxCount = 7, .isz = 2, .dim = 2});
    }
}
DecM genDec(Ctx &c, int id) {
    DecM d;
    d.id = id;
    static const int kinds[] = {COMP, COORD, EVAL, EVEC, NORMALS, AREA, VALENCE, USER, PROBE, PLAIN};
    d.kind = kinds[c.weighted({8, 5, 5, 5, 3, 3, 3, 4, 3, 1})];
    static const Strings nn{"n", "normals", "U", "S1"}, an{"area", "A", "Sx", "S1", "x"}, vn{"val", "V", "Sy", "area"},
        un{"user", "S", "Sx", "Uuser", "U0", "area"}, pn{"_p", "1", "x", "'"};
    switch (d.kind) {
    case COORD:
        d.cb = c.flip() ? 1 : 0;
        if (d.cb == 0) {
            static const Strings cn{"x", "y", "z", "X", "Y", "Z", "east", "north", "Sx", "w"};
            int n = (int)c.below(5);
            for (int i = 0; i < n; ++i) {
                std::string s = c.pick(cn);
                if (std::find(d.names.begin(), d.names.end(), s) == d.names.end())
                    d.names.push_back(s);
            }
        } else
            d.names = {"x", "y", "z"};
        break;
    case NORMALS:
        d.name = c.pick(nn);
        break;
    case AREA:
        d.name = c.pick(an);
        break;
    case VALENCE:
        d.name = c.pick(vn);
        break;
    case USER:
        d.name = c.pick(un);
        d.isz = (uint32_t)c.range(1, 6);
        d.cb = (int)c.below(4);
        break;
    case PROBE:
        d.name = c.pick(pn);
        break;
    }
    return d;
}

struct World {
    df::Dataframe d;
    Frame f;
    unsigned dim = 3;
    std::vector<DecM> decs;
    std::unique_ptr<df::Manager> mng;
    std::string text() const {
        std::string t;
        for (auto &e : f)
            t += "  " + q(e.first) + ": " + show(e.second) + "\n";
        for (auto &x : decs)
            t += "  " + x.text() + "\n";
        return t;
    }
    void sync() { // the frame takes the content of the model
        for (auto &e : f)
            d.set(e.first, direct(e.second));
        std::vector<std::string> gone;
        for (auto &e : d.series())
            if (!f.count(e.first))
                gone.push_back(e.first);
        for (auto &n : gone)
            d.del(n);
    }
};

void query(Ctx &c, World &w, uint32_t isz, const std::string &when) {
    std::vector<Offer> off;
    for (auto &x : w.decs)
        offers(w.f, x, isz, off);
    std::set<std::string> want;
    for (auto &e : w.f)
        if (!special(e.first) && e.second.isz == isz && e.second.dim == w.dim)
            want.insert(e.first);
    for (auto &o : off)
        if (o.listed)
            want.insert(o.name);
    const std::string at = when + ", item size " + std::to_string(isz);
    Strings got = w.mng->names(isz);
    std::set<std::string> gs(got.begin(), got.end());
    CHECK(gs.size() == got.size(), at, ": a name is listed twice");
    bool certain = !w.f.empty(); // whether an empty frame still offers user defined attributes is not specified
    if (certain) {
        for (auto &n : want)
            CHECK(gs.count(n), at, ": ", q(n), " is not listed");
        for (auto &n : gs)
            CHECK(want.count(n), at, ": ", q(n), " is listed but nothing provides it");
    }
    auto resolve = [&](const std::string &n) {
        Serie s = w.mng->serie(isz, n);
        auto st = w.f.find(n);
        if (st != w.f.end() && st->second.isz == isz) {
            expectSame(s, st->second, at + ": the stored Serie " + q(n), WITH_DIM);
            return;
        }
        std::vector<const Offer *> cand;
        for (auto &o : off)
            if (o.name == n)
                cand.push_back(&o);
        // Known finding: Area gives its Serie whatever the item size (a test of the repository relies on it)
        for (auto &x : w.decs)
            if (x.kind == AREA && isz != 1 && x.name == n && s.isValid() && s.itemSize() == 1) {
                std::vector<Offer> a;
                offers(w.f, x, 1, a);
                if (!a.empty() && is(s, a[0])) {
                    c.label("known: Area gives its Serie for any item size");
                    return;
                }
            }
        if (cand.empty()) {
            CHECK(!s.isValid(), at, ": ", q(n), " designates nothing but gives a Serie of item size ", s.itemSize(),
                  " and count ", s.count());
            return;
        }
        CHECK(s.isValid(), at, ": ", q(n), " resolves to an invalid Serie");
        CHECK(s.itemSize() == isz, at, ": ", q(n), " resolves to a Serie of item size ", s.itemSize());
        for (auto *o : cand)
            if (is(s, *o))
                return;
        pbt::fail(at, ": ", q(n), " resolves to ", show(modelOf(s)), ", expected ", show(cand[0]->m));
    };
    std::set<std::string> some = want; // all of them, or some of hundreds
    for (auto &e : w.f)
        some.insert(e.first);
    if (some.size() > 100) {
        std::vector<std::string> v(some.begin(), some.end());
        some = {v.front(), v.back()};
        for (int k = 0; k < 5; ++k)
            some.insert(c.pick(v));
    }
    for (auto &n : some) {
        resolve(n);
        if (certain && want.count(n))
            CHECK(w.mng->contains(isz, n), at, ": contains(", q(n), ") is false");
    }
    // names close to those listed, in other item sizes, and arbitrary ones
    std::vector<std::string> all(want.begin(), want.end()), odd;
    for (auto &e : w.f)
        all.push_back(e.first);
    static const Strings tails{"0", "1", "2", "3", "4", "00", "01", "10", "x", "y", "z", "xx", "xy", "yx", "zz", "w", " ", "X", "_p"};
    for (int k = 0; k < 6; ++k) {
        std::string n = all.empty() ? "S" : c.pick(all);
        switch (c.below(6)) {
        case 0:
            n += c.pick(tails);
            break;
        case 1:
            n = n.substr(0, n.size() - 1);
            break;
        case 2:
            if (!n.empty())
                n.back() = "0123456789xyzXa"[c.below(15)];
            break;
        case 3:
            n = c.pick(POOL) + c.pick(tails);
            break;
        case 4:
            n = c.pick(tails);
            break;
        default:
            n = c.pick(POOL);
        }
        if (n.rfind("positions", 0) == 0 || n.rfind("indices", 0) == 0)
            continue;
        odd.push_back(n);
    }
    for (auto &n : odd) {
        resolve(n);
        if (certain)
            CHECK(w.mng->contains(isz, n) == (want.count(n) > 0), at, ": contains(", q(n), ") is ", !want.count(n));
    }
}
void queryAll(Ctx &c, World &w, const std::string &when) {
    std::set<uint32_t> sizes{1, 2, 3, 6};
    for (auto &e : w.f)
        sizes.insert(e.second.isz);
    if (c.chance(1, 2)) {
        std::vector<uint32_t> v(sizes.begin(), sizes.end());
        sizes = {1, c.pick(v)};
    }
    for (auto s : sizes)
        query(c, w, s, when);
    // asking changes nothing
    CHECK(w.d.series().size() == w.f.size(), when, ": the data frame holds ", w.d.series().size(), " Series after the queries");
    for (auto &e : w.f)
        expectSame(w.d.series().at(e.first), e.second, when + ": the stored Serie " + q(e.first), WITH_DIM);
}
} // namespace

LAW(attributes, 10, "any data frame, decomposers, and later changes of both") {
    auto life = std::make_shared<Life>();
    std::vector<int> expected; // destructions
    {
        World w;
        w.dim = c.chance(1, 3) ? 2 : 3;
        int n = (int)c.range(0, 5);
        for (int i = 0; i < n; ++i)
            w.f[c.pick(POOL)] = genStored(c, w.dim);
        if (c.chance(1, 300)) { // hundreds of names of the same kind
            static const uint32_t sizes[] = {1, 2, 3, 6, 9};
            uint32_t isz = sizes[c.below(5)], many = (uint32_t)c.range(256, 260);
            for (uint32_t i = 0; i < many; ++i) {
                M m = M::empty(isz, w.dim);
                Array item(isz);
                for (uint32_t j = 0; j < isz; ++j)
                    item[j] = i + j / 16.0;
                m.push(item);
                w.f["N" + std::to_string(1000 + i)] = m;
            }
        }
        if (c.chance(2, 3))
            genGeometry(c, w.f);
        w.sync();
        int nd = (int)c.range(0, 5), id = 0;
        df::Decomposers ds;
        for (int i = 0; i < nd; ++i)
            w.decs.push_back(genDec(c, id++));
        int given = (int)c.below(nd + 1); // to the constructor
        for (int i = 0; i < given; ++i)
            ds.push_back(make(w.decs[i], life));
        w.mng = std::make_unique<df::Manager>(w.d, ds, w.dim);
        for (int i = given; i < nd; ++i)
            w.mng->add(make(w.decs[i], life));
        c.log("dimension ", w.dim, "\n", w.text());
        bool busy = !w.decs.empty() && !w.f.empty();
        CHECK(w.mng->nbDecomposers() == w.decs.size(), "nbDecomposers is ", w.mng->nbDecomposers());
        queryAll(c, w, "at first");
        int steps = (int)c.below(5);
        for (int s = 0; s < steps; ++s) {
            std::string when = "after change " + std::to_string(s);
            switch (c.weighted({4, 3, 2, 2, 2, 1})) {
            case 0: {
                std::string nm = c.pick(POOL);
                w.f[nm] = genStored(c, w.dim);
                c.log(when, ": ", q(nm), " is ", show(w.f[nm]));
                w.d.set(nm, direct(w.f[nm]));
                break;
            }
            case 1: { // written in place
                auto it = w.f.begin();
                if (w.f.empty())
                    break;
                std::advance(it, c.below(w.f.size()));
                if (it->second.v.empty())
                    break;
                size_t k = c.below(it->second.v.size());
                it->second.v[k] += 1;
                c.log(when, ": ", q(it->first), " value ", k, " is increased");
                w.d[it->first].setScalar(k, it->second.v[k]);
                break;
            }
            case 2: {
                if (w.f.empty())
                    break;
                auto it = w.f.begin();
                std::advance(it, c.below(w.f.size()));
                c.log(when, ": ", q(it->first), " is deleted");
                w.f.erase(it);
                w.sync();
                break;
            }
            case 3:
                genGeometry(c, w.f);
                w.sync();
                c.log(when, ": other positions and indices\n", w.text());
                break;
            case 4: {
                w.decs.push_back(genDec(c, id++));
                c.log(when, ": a decomposer is added: ", w.decs.back().text());
                w.mng->add(make(w.decs.back(), life));
                break;
            }
            case 5:
                c.log(when, ": clear");
                w.mng->clear();
                w.decs.clear();
                for (auto x : life->destroyed)
                    CHECK(x == 1, "a decomposer was destroyed ", x, " times by clear");
                break;
            }
            CHECK(w.mng->nbDecomposers() == w.decs.size(), when, ": nbDecomposers is ", w.mng->nbDecomposers(), ", expected ",
                  w.decs.size());
            queryAll(c, w, when);
            for (auto &x : w.decs)
                CHECK(life->destroyed[x.id] == 0, "a decomposer in use was destroyed");
        }
        c.nontrivial(busy);
        // two managers of one frame
        if (c.chance(1, 8)) {
            auto l2 = std::make_shared<Life>();
            auto dec = genDec(c, 0);
            {
                df::Manager other(w.d, {make(dec, l2)}, w.dim);
                (void)other.names(1);
            }
            CHECK(l2->destroyed[0] == 1, "a decomposer was destroyed ", l2->destroyed[0], " times with its manager");
            queryAll(c, w, "after the end of another manager");
        }
    }
    for (size_t i = 0; i < life->destroyed.size(); ++i)
        CHECK(life->destroyed[i] == 1, "decomposer ", i, " was destroyed ", life->destroyed[i], " times");
}

// A copied manager must not destroy the decomposers of the first one, were it possible to copy one
template <class Manager> void copied(Ctx &c, const Manager &m, Manager &other) {
    if constexpr (std::is_copy_constructible_v<Manager>) {
        Manager b(m);
        c.log("a copy, of ", b.nbDecomposers(), " decomposers");
    }
    if constexpr (std::is_copy_assignable_v<Manager>)
        other = m;
}
LAW(copies, 1, "decomposers are destroyed once, managers being copied or not") {
    auto life = std::make_shared<Life>();
    World w;
    int nd = (int)c.range(1, 4);
    for (int i = 0; i < nd; ++i)
        w.decs.push_back(genDec(c, i));
    c.log(w.text());
    c.nontrivial(true);
    {
        df::Manager m(w.d, {}, 3), other(w.d, {}, 3);
        for (auto &x : w.decs)
            m.add(make(x, life));
        copied(c, m, other);
        for (int i = 0; i < nd; ++i)
            CHECK(life->destroyed[i] == 0, "decomposer ", i, " is destroyed while its manager is in use");
        CHECK(m.nbDecomposers() == (uint32_t)nd, "nbDecomposers is ", m.nbDecomposers());
        (void)m.names(1);
    }
    for (int i = 0; i < nd; ++i)
        CHECK(life->destroyed[i] == 1, "decomposer ", i, " was destroyed ", life->destroyed[i], " times");
}

LAW(readme, 1, "the example of the documentation: every kind of decomposer, 2D and 3D") {
    auto life = std::make_shared<Life>();
    World w;
    w.dim = c.flip() ? 2 : 3;
    genGeometry(c, w.f);
    for (uint32_t isz : {1, 2, 3, 4, 6, 9, 12})
        if (c.chance(2, 3))
            w.f["A" + std::string(1, char('a' + isz))] =
                genM(c, {.prof = INTS | REAL, .minCount = 1, .maxCount = 6, .isz = isz, .dim = w.dim});
    w.sync();
    int id = 0;
    df::Decomposers ds;
    for (int k : {COORD, COMP, EVAL, EVEC, NORMALS, AREA, VALENCE}) {
        DecM d;
        d.kind = k;
        d.id = id++;
        d.cb = 1;
        d.name = k == NORMALS ? "normals" : k == AREA ? "area" : k == VALENCE ? "val" : "";
        w.decs.push_back(d);
        ds.push_back(make(d, life));
    }
    w.mng = std::make_unique<df::Manager>(w.d, ds, w.dim);
    c.log("dimension ", w.dim, "\n", w.text());
    c.nontrivial(!w.f.empty());
    queryAll(c, w, "the example");
}

PBT_MAIN("C26",
         "A case is a data frame of 0 to 7 Series (colliding names, item sizes 1 to 101, 2D or 3D, a mesh or part of "
         "one), 0 to 5 decomposers in any order and up to 4 later changes; every listed name is resolved and compared, "
         "and names close to them too. Non-trivial: at least one Serie and one decomposer.",
         39000, 312000)
