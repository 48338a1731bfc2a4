// C10: element-wise arithmetic is correct for every item.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
constexpr unsigned P = FINITE;
Group genGroup(Ctx &c, size_t k, uint32_t maxIsz = 0) { // equal counts and item sizes
    Group g;
    M a = genM(c, {.prof = P, .maxCount = 5000, .isz = c.chance(1, 3) ? 1u : 0u, .maxIsz = maxIsz});
    g.add(c, a);
    while (g.size() < k)
        g.add(c, genLike(c, a, P, a.isz));
    return g;
}
double genNumber(Ctx &c) {
    static const double e[] = {0, 1, -1, 2, 0.5, -3, 1e6, 1e-6, -0.0, 1e-12};
    if (c.chance(1, 3))
        return e[c.below(10)];
    return genValues(c, 1, P, false)[0];
}
// value and magnitude, component by component
struct Expect {
    M w;
    Array mag;
};
template <class F> Expect combine(const std::vector<M> &ms, F f) { // f(values) -> {value, magnitude}
    Expect e{ms[0], Array(ms[0].v.size())};
    std::vector<double> x(ms.size());
    for (size_t i = 0; i < e.w.v.size(); ++i) {
        for (size_t k = 0; k < ms.size(); ++k)
            x[k] = ms[k].v[i];
        auto [v, m] = f(x);
        e.w.v[i] = v;
        e.mag[i] = m;
    }
    return e;
}
std::pair<double, double> sum(const std::vector<double> &x) {
    double v = 0, m = 0;
    for (double d : x) {
        v += d;
        m += std::fabs(d);
    }
    return {v, m};
}
std::pair<double, double> diff(const std::vector<double> &x) {
    double v = x[0], m = std::fabs(x[0]);
    for (size_t k = 1; k < x.size(); ++k) {
        v -= x[k];
        m += std::fabs(x[k]);
    }
    return {v, m};
}
constexpr double TOL = 1e-12;
void expect(const Serie &r, const Expect &e, const std::string &what) { expectCloseOrNone(r, e.w, what, e.mag, TOL); }
} // namespace

LAW(add, 6, "add of two, of several, of a list, of a number") {
    Group g = genGroup(c, (size_t)c.range(1, 5));
    bool list = c.flip();
    c.log(list ? "add of a list of\n" : "add of\n", g.text());
    Expect e = combine(g.ms, sum);
    if (list)
        expect(spread(g, [](const auto &...s) { return df::math::add({s...}); }), e, "add of a list");
    else if (g.size() > 1)
        expect(spread(g,
                      [](const auto &...s) -> Serie {
                          if constexpr (sizeof...(s) > 1)
                              return df::math::add(s...);
                          else
                              return Serie();
                      }),
               e, "add");
    else if (g.ms[0].isz == 1) {
        double d = genNumber(c);
        c.log("and ", d);
        expect(df::math::add(g[0], d), combine(g.ms, [d](auto &x) { return std::pair(x[0] + d, std::fabs(x[0]) + std::fabs(d)); }),
               "add of a number");
    }
    g.unchanged("an operand of add");
    c.nontrivial(g.ms[0].n >= 2 && g.ms[0].v.size() > 0);
}

LAW(sub, 6, "sub of two, of several, of a list, of a number") {
    Group g = genGroup(c, (size_t)c.range(1, 5));
    bool list = c.flip();
    c.log(list ? "sub of a list of\n" : "sub of\n", g.text());
    Expect e = combine(g.ms, diff);
    if (list)
        expect(spread(g, [](const auto &...s) { return df::math::sub({s...}); }), e, "sub of a list");
    else if (g.size() > 1)
        expect(spread(g,
                      [](const auto &...s) -> Serie {
                          if constexpr (sizeof...(s) > 1)
                              return df::math::sub(s...);
                          else
                              return Serie();
                      }),
               e, "sub");
    else if (g.ms[0].isz == 1) {
        double d = genNumber(c);
        c.log("and ", d);
        expect(df::math::sub(g[0], d), combine(g.ms, [d](auto &x) { return std::pair(x[0] - d, std::fabs(x[0]) + std::fabs(d)); }),
               "sub of a number");
    }
    g.unchanged("an operand of sub");
    c.nontrivial(g.ms[0].n >= 2);
}

LAW(mult, 6, "mult by a number, item-wise, and by a scalar Serie") {
    M a = genM(c, {.prof = P, .maxCount = 5000, .isz = c.chance(1, 3) ? 1u : 0u});
    Group g;
    g.add(c, a);
    int kind = (int)c.below(3);
    g.add(c, genLike(c, a, P, kind == 2 ? 1 : a.isz));
    double d = genNumber(c);
    c.log("mult kind ", kind, " number ", d, "\n", g.text());
    Expect e{a, a.v};
    for (size_t i = 0; i < a.v.size(); ++i) {
        e.w.v[i] = a.v[i] * (kind == 0 ? d : kind == 1 ? g.ms[1].v[i] : g.ms[1].v[i / a.isz]);
        e.mag[i] = std::fabs(e.w.v[i]);
    }
    Serie r = kind == 0 ? df::math::mult(g[0], d) : df::math::mult(g[0], g[1]);
    expect(r, e, "mult");
    g.unchanged("an operand of mult");
    c.nontrivial(a.n >= 2);
}

LAW(scale, 5, "scale by a number or by one factor per component; negate") {
    M a = genM(c, {.prof = P, .maxCount = 5000, .isz = c.chance(1, 4) ? 1u : 0u});
    Group g;
    g.add(c, a);
    int kind = (int)c.below(3);
    double d = genNumber(c);
    Array f = genValues(c, a.isz, P);
    c.log("scale kind ", kind, " number ", d, " factors ", show(f), "\n", g.text());
    Expect e{a, a.v};
    for (size_t i = 0; i < a.v.size(); ++i) {
        e.w.v[i] = kind == 0 ? a.v[i] * d : kind == 1 ? a.v[i] * f[i % a.isz] : -a.v[i];
        e.mag[i] = std::fabs(e.w.v[i]);
    }
    expect(kind == 0   ? df::math::scale(g[0], d)
           : kind == 1 ? df::math::scale(g[0], f)
                       : df::math::negate(g[0]),
           e, kind == 2 ? "negate" : "scale");
    g.unchanged("the scaled Serie");
    c.nontrivial(a.n >= 2);
}

LAW(div, 6, "div by a number and item-wise, with near-zero dividers") {
    M a = genM(c, {.prof = P, .maxCount = 5000, .isz = c.chance(1, 3) ? 1u : 0u});
    bool number = c.chance(1, 3);
    Group g;
    g.add(c, a);
    M q = genLike(c, a, P, 1);
    bool zero = false;
    static const double small[] = {0.0, -0.0, 1e-11, -1e-11, 9.9e-11, -9.99e-11, 1e-300};
    static const double notSmall[] = {1e-10, -1e-10, 1.1e-10, -1.1e-10, 2e-10, 1e-9, -1e-9, 1e-7};
    for (uint32_t t = 0, k = q.n ? (uint32_t)c.below(4) : 0; t < k; ++t)
        q.v[c.below(q.n)] = c.flip() ? small[c.below(7)] : notSmall[c.below(8)];
    double d = genNumber(c);
    if (d == 0)
        d = 3;
    g.add(c, q);
    q = g.ms[1]; // may be the same object as the divided one
    c.log("div ", number ? "by " + num(d) : "item-wise", "\n", g.text());
    Expect e{a, a.v};
    for (size_t i = 0; i < a.v.size(); ++i) {
        double w = number ? d : q.v[i / a.isz];
        bool none = !number && std::fabs(w) < 1e-10;
        zero = zero || none;
        e.w.v[i] = none ? 0.0 : a.v[i] / w;
        e.mag[i] = std::fabs(e.w.v[i]);
    }
    expect(number ? df::math::div(d, g[0]) : df::math::div(g[1], g[0]), e, "div");
    g.unchanged("an operand of div");
    if (zero)
        c.label("near-zero divider");
    c.nontrivial(a.n >= 2);
}

LAW(many, 1, "lists of many Series") {
    Group g;
    M a = genM(c, {.prof = P, .maxCount = 40, .isz = c.chance(1, 3) ? 1u : 0u, .maxIsz = 6});
    size_t n = genMany(c);
    g.add(c, a);
    while (g.size() < n)
        g.add(c, genLike(c, a, P, a.isz));
    auto s = g.copies();
    int op = (int)c.below(5);
    static const char *names[] = {"add of a list", "add", "sub of a list", "sub", "weigthedSum"};
    c.log(names[op], " of ", n, "\n", g.text());
    switch (op) {
    case 0:
        expect(spreadMany(s, [](const auto &...x) { return df::math::add({x...}); }), combine(g.ms, sum), names[op]);
        break;
    case 1:
        expect(spreadMany(s, [](const auto &...x) { return df::math::add(x...); }), combine(g.ms, sum), names[op]);
        break;
    case 2:
        expect(spreadMany(s, [](const auto &...x) { return df::math::sub({x...}); }), combine(g.ms, diff), names[op]);
        break;
    case 3:
        expect(spreadMany(s, [](const auto &...x) { return df::math::sub(x...); }), combine(g.ms, diff), names[op]);
        break;
    default: {
        Array w = genValues(c, n, P);
        expect(spreadMany(s, [&](const auto &...x) { return df::math::weigthedSum({x...}, w); }), combine(g.ms, [&](auto &x) {
                   double v = 0, m = 0;
                   for (size_t k = 0; k < x.size(); ++k) {
                       v += x[k] * w[k];
                       m += std::fabs(x[k] * w[k]);
                   }
                   return std::pair(v, m);
               }),
               names[op]);
    }
    }
    g.unchanged("an operand");
    c.nontrivial(a.n >= 2);
}

LAW(weighted_sum, 6, "weigthedSum of 1 to 5 Series") {
    Group g = genGroup(c, (size_t)c.range(1, 5), 9);
    Array w = genValues(c, g.size(), P);
    bool list = c.flip();
    c.log("weigthedSum with ", show(w), " of\n", g.text());
    Expect e = combine(g.ms, [&](auto &x) {
        double v = 0, m = 0;
        for (size_t k = 0; k < x.size(); ++k) {
            v += x[k] * w[k];
            m += std::fabs(x[k] * w[k]);
        }
        return std::pair(v, m);
    });
    Serie r = spread(g, [&](const auto &...s) {
        if (!list)
            return df::math::weigthedSum({s...}, w);
        constexpr size_t K = sizeof...(s);
        if constexpr (K == 1)
            return df::math::weigthedSum({s...}, {w[0]});
        else if constexpr (K == 2)
            return df::math::weigthedSum({s...}, {w[0], w[1]});
        else if constexpr (K == 3)
            return df::math::weigthedSum({s...}, {w[0], w[1], w[2]});
        else if constexpr (K == 4)
            return df::math::weigthedSum({s...}, {w[0], w[1], w[2], w[3]});
        else
            return df::math::weigthedSum({s...}, {w[0], w[1], w[2], w[3], w[4]});
    });
    expect(r, e, "weigthedSum");
    g.unchanged("an operand of weigthedSum");
    c.nontrivial(g.ms[0].n >= 2);
}

LAW(relations, 4, "sub(a, a) is 0, add(a, negate(a)) is 0, sub of a list is sub of the sum, scale is mult") {
    Group g = genGroup(c, 3);
    double d = genNumber(c);
    c.log("relations, number ", d, "\n", g.text());
    const M &a = g.ms[0];
    if (a.n == 0)
        throw pbt::Discard{};
    M zero = a;
    for (auto &x : zero.v)
        x = 0;
    expectClose(df::math::sub(g[0], g[0]), zero, "sub(a, a)");
    expectClose(df::math::add(g[0], df::math::negate(g[0])), zero, "a + (-a)");
    expectClose(df::math::weigthedSum({g[0], g[0]}, {1, -1}), zero, "a - a as a weighted sum");
    Expect e = combine(g.ms, diff);
    expect(df::math::sub(g[0], df::math::add(g[1], g[2])), e, "a - (b + c)");
    expect(df::math::sub({g[0], g[1], g[2]}), e, "sub {a, b, c}");
    expect(df::math::sub(df::math::sub(g[0], g[1]), g[2]), e, "(a - b) - c");
    Serie k(1, Array(a.n, d));
    Expect f{a, a.v};
    for (size_t i = 0; i < a.v.size(); ++i) {
        f.w.v[i] = a.v[i] * d;
        f.mag[i] = std::fabs(f.w.v[i]);
    }
    expect(df::math::scale(g[0], d), f, "scale(a, d)");
    expect(df::math::mult(g[0], d), f, "mult(a, d)");
    expect(df::math::mult(g[0], k), f, "mult(a, constant Serie)");
    expect(df::math::scale(g[0], Array(a.isz, d)), f, "scale(a, {d, ...})");
    if (std::fabs(d) > 1e-9)
        expectClose(df::math::div(k, df::math::mult(g[0], k)), a, "a * d / d", [&] {
            Array m = a.v;
            for (auto &x : m)
                x = std::fabs(x);
            return m;
        }());
    c.nontrivial(a.n >= 2);
}

PBT_MAIN("C10",
         "A case applies one arithmetic operation (every overload) to one to five generated Series of equal shape "
         "(one object sometimes given several times) and compares every component with the expression evaluated by "
         "the model, to 1e-12 of the magnitudes involved. Non-trivial: at least two items.",
         73000, 1200000)
