// Reference model of a Serie (an array of items), generators and comparisons.
#pragma once
#include "pbt.hpp"
#include <bit>
#include <deque>
#include <dataframe/Serie.h>
#include <limits>

using pbt::Ctx;
using df::Serie;
using df::Series;

struct M {
    uint32_t isz = 1, n = 0;
    unsigned dim = 3;
    Array v;
    double at(uint32_t i, uint32_t j = 0) const { return v[size_t(i) * isz + j]; }
    Array item(uint32_t i) const { return Array(v.begin() + size_t(i) * isz, v.begin() + size_t(i + 1) * isz); }
    void push(const Array &a) {
        v.insert(v.end(), a.begin(), a.end());
        ++n;
    }
    static M empty(uint32_t isz, unsigned dim) {
        M m;
        m.isz = isz;
        m.dim = dim;
        return m;
    }
    static M make(uint32_t isz, Array v, unsigned dim = 3) {
        M m;
        m.isz = isz;
        m.n = isz ? v.size() / isz : 0;
        m.dim = dim;
        m.v = std::move(v);
        return m;
    }
    M select(const std::vector<uint32_t> &idx) const {
        M r = empty(isz, dim);
        r.v.reserve(idx.size() * isz);
        for (auto i : idx)
            r.push(item(i));
        return r;
    }
};

// ---------------------------------------------------------------- printing
inline std::string num(double d) {
    char b[40];
    snprintf(b, sizeof b, "%.17g", d);
    std::string s = b;
    for (int p = 1; p < 17; ++p) {
        snprintf(b, sizeof b, "%.*g", p, d);
        if (strtod(b, nullptr) == d)
            return b;
    }
    return s;
}
inline std::string show(const Array &a, size_t isz = 0, size_t maxItems = 24) {
    std::string s = "{";
    for (size_t i = 0; i < a.size(); ++i) {
        if (i >= maxItems) {
            s += " ... (" + std::to_string(a.size()) + " values)";
            break;
        }
        s += (i == 0 ? "" : isz && i % isz == 0 ? "; " : ", ") + num(a[i]);
    }
    return s + "}";
}
inline std::string show(const M &m) {
    return "Serie(itemSize=" + std::to_string(m.isz) + ", count=" + std::to_string(m.n) +
           ", dim=" + std::to_string(m.dim) + ", " + show(m.v, m.isz) + ")";
}

// ------------------------------------------------------------- comparisons
inline bool sameBits(double a, double b) {
    return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b) || (std::isnan(a) && std::isnan(b));
}
inline bool sameBits(const Array &a, const Array &b) {
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!sameBits(a[i], b[i]))
            return false;
    return true;
}
// equal as numbers (-0 is 0, any NaN is any NaN), or within tol * scale
inline bool close(double a, double b, double scale = 0, double tol = 1e-9) {
    if (a == b || (std::isnan(a) && std::isnan(b)))
        return true;
    if (!std::isfinite(a) || !std::isfinite(b))
        return false;
    return std::fabs(a - b) <= tol * scale;
}

struct SerieView { // shape of a Serie, checked for consistency on the way
    uint32_t isz, n;
    unsigned dim;
};
inline void expectShape(const Serie &s, uint32_t isz, uint32_t n, const std::string &what) {
    CHECK(s.itemSize() == isz, what, ": itemSize is ", s.itemSize(), ", expected ", isz);
    CHECK(s.count() == n, what, ": count is ", s.count(), ", expected ", n);
    CHECK(s.asArray().size() == size_t(isz) * n, what, ": holds ", s.asArray().size(), " values, expected ",
          size_t(isz) * n);
    CHECK(s.size() == isz * n, what, ": size is ", s.size(), ", expected ", isz * n);
}
constexpr bool WITH_DIM = true;
// exactly (bit for bit) the model
inline void expectSame(const Serie &s, const M &m, const std::string &what, bool withDim = false) {
    expectShape(s, m.isz, m.n, what);
    const Array &a = s.asArray();
    for (size_t i = 0; i < a.size(); ++i)
        CHECK(sameBits(a[i], m.v[i]), what, ": value ", i, " (item ", i / m.isz, ") is ", num(a[i]), ", expected ",
              num(m.v[i]));
    if (withDim)
        CHECK(s.dimension() == m.dim, what, ": dimension is ", s.dimension(), ", expected ", m.dim);
}
// equal as numbers, within tol * scale(i) where scale holds one magnitude per value (or is empty)
inline void expectClose(const Serie &s, const M &m, const std::string &what, const Array &scale = {},
                        double tol = 1e-9) {
    expectShape(s, m.isz, m.n, what);
    const Array &a = s.asArray();
    for (size_t i = 0; i < a.size(); ++i)
        CHECK(close(a[i], m.v[i], scale.empty() ? 0 : scale[i], tol), what, ": value ", i, " (item ", i / m.isz,
              ") is ", num(a[i]), ", expected ", num(m.v[i]));
}
// map of an empty Serie may be an invalid Serie: nothing to compare but the absence of items
inline void expectSameOrNone(const Serie &s, const M &m, const std::string &what) {
    if (m.n == 0) {
        CHECK(s.count() == 0 && s.asArray().empty(), what, ": result of an empty Serie is not empty");
        return;
    }
    expectSame(s, m, what);
}
inline void expectCloseOrNone(const Serie &s, const M &m, const std::string &what, const Array &scale = {},
                              double tol = 1e-9) {
    if (m.n == 0) {
        CHECK(s.count() == 0 && s.asArray().empty(), what, ": result of an empty Serie is not empty");
        return;
    }
    expectClose(s, m, what, scale, tol);
}
inline M modelOf(const Serie &s) {
    M m;
    m.isz = s.itemSize();
    m.n = s.count();
    m.dim = s.dimension();
    m.v = s.asArray();
    return m;
}
template <class F> bool throws(F &&f) {
    try {
        f();
    } catch (const pbt::Failure &) {
        throw;
    } catch (const pbt::Discard &) {
        throw;
    } catch (const std::exception &) {
        return true;
    }
    return false;
}

// -------------------------------------------------------------- generators
enum Prof : unsigned {
    IDENT = 1,     // 1, 2, 3, ...: every value tells its position
    INTS = 2,      // small integers, positive and negative
    DYADIC = 4,    // multiples of 1/16
    FEW = 8,       // 0, 1 or 2: many duplicates
    CONSTANT = 16, // one value everywhere
    SORTED = 32,   // increasing
    REVERSED = 64, // decreasing
    REAL = 128,    // decimal numbers in [-10, 10]
    DECADES = 256, // magnitudes 1e-4 ... 1e6
    WIDE = 512,    // any magnitude
    BITS = 1024,   // any bit pattern
    SPECIAL = 2048, // signed zeros, infinities, NaN, subnormals, extremes
    NEARDUP = 4096, // values that differ by tiny amounts
    POSITIVE = 8192 // positive numbers
};
constexpr unsigned EXACT = IDENT | INTS | DYADIC | FEW | CONSTANT | SORTED | REVERSED;
constexpr unsigned FINITE = EXACT | REAL | DECADES | NEARDUP | POSITIVE;
constexpr unsigned ANY = FINITE | WIDE | BITS | SPECIAL;

struct Src { // draws from the case itself or from a generator seeded by it
    Ctx *c;
    pbt::Rng r{0};
    bool own;
    uint64_t below(uint64_t n) { return own ? (n == 1 ? 0 : r.below(n)) : c->below(n); }
};
inline Src source(Ctx &c, size_t values) {
    Src s{&c, pbt::Rng(0), values > 48};
    if (s.own)
        s.r = pbt::Rng(c.below(1u << 30));
    return s;
}
inline int64_t zigzag(uint64_t u) { return (u & 1) ? int64_t(u / 2) + 1 : -int64_t(u / 2); }

inline double oneValue(Src &s, unsigned prof, size_t i, size_t n, double base) {
    static const double special[] = {0.0,
                                     -0.0,
                                     1.0,
                                     -1.0,
                                     std::numeric_limits<double>::infinity(),
                                     -std::numeric_limits<double>::infinity(),
                                     std::numeric_limits<double>::quiet_NaN(),
                                     std::numeric_limits<double>::min(),
                                     std::numeric_limits<double>::denorm_min(),
                                     std::numeric_limits<double>::max(),
                                     std::numeric_limits<double>::lowest(),
                                     1e-11,
                                     1e-10,
                                     9007199254740993.0,
                                     4294967296.0,
                                     2147483648.0,
                                     0.1};
    switch (prof) {
    case IDENT:
        return double(i + 1);
    case INTS:
        return double(zigzag(s.below(41)));
    case DYADIC:
        return double(zigzag(s.below(4097))) / 16.0;
    case FEW:
        return double(s.below(3));
    case CONSTANT:
        return base;
    case SORTED:
        return base + double(i) * 0.5;
    case REVERSED:
        return base + double(n - i) * 0.25;
    case REAL:
        return double(zigzag(s.below(2000001))) / 1e5;
    case DECADES: {
        double m = double(zigzag(s.below(19999))) / 1000.0;
        static const double p[] = {1, 10, 0.1, 100, 0.01, 1e3, 1e-3, 1e4, 1e-4, 1e5};
        return m * p[s.below(10)];
    }
    case WIDE: {
        double m = double(zigzag(s.below(1u << 21))) / 65536.0;
        return std::ldexp(m, int(zigzag(s.below(1001))));
    }
    case BITS: {
        uint64_t b = s.below(0);
        double d = std::bit_cast<double>(b);
        if (std::isnan(d))
            d = std::bit_cast<double>(b | 0x0008000000000000ull); // quiet
        return d;
    }
    case SPECIAL:
        return special[s.below(sizeof special / sizeof *special)];
    case NEARDUP:
        return base + double(zigzag(s.below(7))) * 1e-11 + double(s.below(2));
    case POSITIVE:
        return double(1 + s.below(1000000)) / 1000.0;
    }
    return 0;
}
inline unsigned genProf(Ctx &c, unsigned mask) {
    std::vector<unsigned> ps;
    for (unsigned b = 1; b <= POSITIVE; b <<= 1)
        if (mask & b)
            ps.push_back(b);
    return ps[c.below(ps.size())];
}
inline Array genValues(Ctx &c, size_t n, unsigned mask, bool mix = true) {
    Array a(n);
    // a mixture of profiles now and then
    bool mixed = mix && n > 1 && c.chance(1, 8);
    std::vector<unsigned> ps;
    for (int k = 0; k < (mixed ? 3 : 1); ++k)
        ps.push_back(genProf(c, mask));
    double base = (ps[0] & (CONSTANT | SORTED | REVERSED | NEARDUP)) || mixed ? double(zigzag(c.below(33))) : 0;
    Src s = source(c, n);
    for (size_t i = 0; i < n; ++i)
        a[i] = oneValue(s, mixed ? ps[s.below(3)] : ps[0], i, n, base);
    return a;
}
struct Opt {
    unsigned prof = FINITE;
    uint32_t minCount = 0, maxCount = 70000;
    uint32_t isz = 0, maxIsz = 0; // isz fixed if > 0
    unsigned dim = 0;             // fixed if > 0
};
inline uint32_t genCount(Ctx &c, uint32_t lo = 0, uint32_t hi = 70000) {
    static const uint32_t edge[] = {15,  16,  17,  31,  32,   33,   63,   64,   65,   99,   100,  101,  127,  128,
                                    129, 255, 256, 257, 511,  512,  513,  999,  1000, 1001, 1023, 1024, 1025, 2047,
                                    2048, 2049, 4095, 4096, 4097};
    uint32_t n = 0;
    switch (c.weighted({300, 90, 60, 220, 60, 70, 20, 2})) {
    case 0:
        n = (uint32_t)c.range(2, 8);
        break;
    case 1:
        n = 1;
        break;
    case 2:
        n = 0;
        break;
    case 3:
        n = (uint32_t)c.range(9, 40);
        break;
    case 4:
        n = (uint32_t)c.range(41, 400);
        break;
    case 5:
        n = edge[c.below(sizeof edge / sizeof *edge)];
        break;
    case 6:
        n = (uint32_t)c.range(401, 5000);
        break;
    default:
        n = (uint32_t)c.range(65530, 66100);
        if (hi >= 2000 && c.flip()) // a usual bound, sometimes exceeded
            return n;
    }
    if (n < lo)
        n = lo;
    if (n > hi)
        n = lo + n % (hi - lo + 1);
    return n;
}
inline uint32_t genItemSize(Ctx &c, uint32_t maxIsz = 0) {
    uint32_t k = 1;
    switch (c.weighted({30, 60, 8, 2})) {
    case 0:
        k = 1;
        break;
    case 1:
        k = (uint32_t)c.range(2, 9);
        break;
    case 2:
        k = (uint32_t)c.range(10, 24);
        break;
    default:
        k = (uint32_t)c.range(250, 300);
        if (maxIsz >= 9) // a usual bound, sometimes exceeded
            return k;
    }
    if (maxIsz && k > maxIsz)
        k = 1 + k % maxIsz;
    return k;
}
inline unsigned genDim(Ctx &c) {
    static const unsigned d[] = {3, 2, 1, 4, 7};
    return d[c.weighted({10, 6, 3, 1, 1})];
}
inline M genM(Ctx &c, const Opt &o = {}) {
    M m;
    m.n = genCount(c, o.minCount, o.maxCount);
    m.isz = o.isz ? o.isz : genItemSize(c, o.maxIsz);
    while (size_t(m.n) * m.isz > 210000 && !o.isz)
        m.isz = 1 + m.isz % 3;
    m.dim = o.dim ? o.dim : genDim(c);
    m.v = genValues(c, size_t(m.n) * m.isz, o.prof);
    return m;
}
// Same shape (or part of it) as another one
inline M genLike(Ctx &c, const M &a, unsigned prof, uint32_t isz) {
    M m;
    m.n = a.n;
    m.isz = isz;
    m.dim = c.chance(3, 4) ? a.dim : genDim(c);
    m.v = genValues(c, size_t(m.n) * m.isz, prof);
    return m;
}
// Builds the Serie of a model by one of the ways the library offers.
inline Serie build(Ctx &c, const M &m) {
    switch (c.weighted({6, 2, 2, 2, 1, 1, 1, 1})) {
    case 1: {
        Serie s((int)m.isz, m.n, m.dim);
        for (uint32_t i = 0; i < m.n; ++i)
            s.set(i, m.item(i));
        return s;
    }
    case 2: {
        Serie s((int)m.isz, m.n, m.dim);
        for (uint32_t i = 0; i < m.n * m.isz; ++i)
            s.setScalar(i, m.v[i]);
        return s;
    }
    case 3: {
        Serie s((int)m.isz, m.n, m.dim);
        s.asArray() = m.v;
        return s;
    }
    case 4: {
        Serie t((int)m.isz, m.v, m.dim), s;
        s = t;
        return s;
    }
    case 5: {
        Serie t((int)m.isz, m.v, m.dim);
        Serie s(t);
        return s;
    }
    case 6:
        return df::toSerie(m.isz, m.v, m.dim);
    case 7: {
        Serie t((int)m.isz, m.v, m.dim);
        return t.clone();
    }
    default:
        return Serie((int)m.isz, m.v, m.dim);
    }
}
inline Serie direct(const M &m) { return Serie((int)m.isz, m.v, m.dim); }

// ------------------------------------------- generated functions and predicates
inline uint64_t hashItem(uint64_t seed, const Array &a, uint64_t i) {
    uint64_t h = pbt::mix64(seed ^ (a.size() << 40));
    for (double d : a)
        h = pbt::mix64(h ^ std::bit_cast<uint64_t>(d == 0 ? 0.0 : std::isnan(d) ? 0.25 : d));
    return pbt::mix64(h ^ i);
}
inline uint64_t hashItem(uint64_t seed, double a, uint64_t i) { return hashItem(seed, Array{a}, i); }

// A predicate over (item, index): a random function of both, or a structured one.
struct Pred {
    uint64_t seed = 0;
    int mode = 0;
    uint32_t k = 0;
    uint32_t per = 2;
    double thr = 0;
    bool operator()(const Array &a, uint32_t i) const {
        switch (mode) {
        case 1:
            return true;
        case 2:
            return false;
        case 3:
            return i == k;
        case 4:
            return i != k;
        case 5:
            return !a.empty() && a[0] > thr;
        case 6:
            return i % per == 0;
        case 7:
            return i >= k;
        case 8:
            return a.size() > 0 && a.back() <= thr;
        case 9:
            return hashItem(seed, Array{}, i) % 8 != 0;
        default:
            return hashItem(seed, a, i) % per == 0;
        }
    }
    bool operator()(double a, uint32_t i) const { return (*this)(Array{a}, i); }
};
inline Pred genPred(Ctx &c, const M &m) {
    Pred p;
    p.mode = (int)c.weighted({8, 2, 2, 3, 3, 4, 2, 2, 2, 2});
    p.seed = c.below(1 << 16);
    p.k = m.n ? (c.chance(1, 3) ? m.n - 1 : (uint32_t)c.below(m.n)) : 0;
    p.per = (uint32_t)c.range(2, 5);
    if (m.n)
        p.thr = m.v[c.below(std::min<size_t>(m.v.size(), 4096))];
    return p;
}
inline std::string show(const Pred &p) {
    return "predicate(mode " + std::to_string(p.mode) + ", seed " + std::to_string(p.seed) + ", k " +
           std::to_string(p.k) + ", per " + std::to_string(p.per) + ", thr " + num(p.thr) + ")";
}

// Many arguments: more than are usually written down.
inline size_t genMany(Ctx &c) {
    static const size_t n[] = {7, 8, 9, 12, 17, 33};
    return n[c.below(6)];
}
template <class F, size_t... I> auto spreadOf(const std::vector<Serie> &s, F &&f, std::index_sequence<I...>) { return f(s[I]...); }
template <class F> auto spreadMany(const std::vector<Serie> &s, F &&f) {
    switch (s.size()) {
    case 7: return spreadOf(s, f, std::make_index_sequence<7>());
    case 8: return spreadOf(s, f, std::make_index_sequence<8>());
    case 9: return spreadOf(s, f, std::make_index_sequence<9>());
    case 12: return spreadOf(s, f, std::make_index_sequence<12>());
    case 17: return spreadOf(s, f, std::make_index_sequence<17>());
    default: return spreadOf(s, f, std::make_index_sequence<33>());
    }
}

// ------------------------------------------------------- groups of Series
// Several Series given to one operation; one object may be given several times.
struct Group {
    std::vector<M> ms;        // one model per argument
    std::deque<Serie> own;    // the distinct objects
    std::vector<M> ownM;      // their models
    std::vector<const Serie *> p;
    size_t size() const { return p.size(); }
    const Serie &operator[](size_t i) const { return *p[i]; }
    std::vector<Serie> copies() const {
        std::vector<Serie> r;
        for (auto q : p)
            r.push_back(*q);
        return r;
    }
    void add(Ctx &c, const M &m) {
        ms.push_back(m);
        if (c.chance(1, 12))
            for (size_t k = 0; k < own.size(); ++k)
                if (ownM[k].isz == m.isz && ownM[k].n == m.n) {
                    ms.back() = ownM[k];
                    p.push_back(&own[k]);
                    return;
                }
        own.push_back(build(c, m));
        ownM.push_back(m);
        p.push_back(&own.back());
    }
    void unchanged(const std::string &what) const {
        for (size_t k = 0; k < own.size(); ++k)
            expectSame(own[k], ownM[k], what, WITH_DIM);
    }
    std::string text() const {
        std::string t;
        for (size_t k = 0; k < ms.size(); ++k)
            t += (k ? "\n  " : "  ") + show(ms[k]);
        return t;
    }
};
template <class F> auto spread(const Group &g, F &&f) {
    auto &p = g.p;
    switch (p.size()) {
    case 1:
        return f(*p[0]);
    case 2:
        return f(*p[0], *p[1]);
    case 3:
        return f(*p[0], *p[1], *p[2]);
    case 4:
        return f(*p[0], *p[1], *p[2], *p[3]);
    case 5:
        return f(*p[0], *p[1], *p[2], *p[3], *p[4]);
    case 6:
        return f(*p[0], *p[1], *p[2], *p[3], *p[4], *p[5]);
    }
    throw pbt::Discard{};
}
