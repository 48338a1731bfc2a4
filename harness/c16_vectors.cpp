// C16: dot, cross and norm satisfy the algebra of vectors.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
using namespace df::algebra;
constexpr double TOL = 1e-11;
// The magnitude of a whole case is anything whose products neither overflow nor underflow.
int genScale(Ctx &c) { return c.chance(1, 5) ? (int)c.range(-400, 400) : 0; }
void scale(Array &v, int e) {
    for (double &x : v)
        x = std::ldexp(x, e);
}
M genItems(Ctx &c, uint32_t isz, int e) {
    M m = genM(c, {.prof = FINITE, .maxCount = 5000, .isz = isz});
    scale(m.v, e);
    return m;
}
M genAlike(Ctx &c, const M &a, int e) {
    M m = genLike(c, a, FINITE, a.isz);
    scale(m.v, e);
    return m;
}
double mag3(const Array &a, const Array &b, int i) {
    int j = (i + 1) % 3, k = (i + 2) % 3;
    return std::fabs(a[j] * b[k]) + std::fabs(a[k] * b[j]);
}
} // namespace

LAW(dot, 6, "dot of two Series, and of a Serie with a constant vector") {
    int e = genScale(c);
    M a = genItems(c, 0, e);
    Group g;
    g.add(c, a);
    g.add(c, genAlike(c, a, e));
    bool cst = c.chance(1, 3);
    Array k = genValues(c, a.isz, FINITE);
    scale(k, c.flip() ? e : -e);
    c.log("dot of\n", g.text(), cst ? "\n first with " + show(k) : "");
    M w = M::empty(1, a.dim);
    Array mag;
    for (uint32_t i = 0; i < a.n; ++i) {
        long double t = 0, m = 0;
        for (uint32_t j = 0; j < a.isz; ++j) {
            long double p = (long double)a.at(i, j) * (cst ? k[j] : g.ms[1].at(i, j));
            t += p;
            m += fabsl(p);
        }
        w.push({double(t)});
        mag.push_back(double(m));
    }
    if (cst)
        expectCloseOrNone(c.flip() ? dot(g[0], k) : make_dot(k)(g[0]), w, "dot with a vector", mag, TOL);
    else {
        expectCloseOrNone(dot(g[0], g[1]), w, "dot", mag, TOL);
        expectCloseOrNone(dot(g[1], g[0]), w, "dot the other way", mag, TOL);
    }
    g.unchanged("an operand of dot");
    c.nontrivial(a.n >= 2);
}

LAW(norm, 6, "norm and norm2, any item size") {
    M a = genItems(c, c.chance(1, 4) ? 1 : 0, genScale(c));
    c.log("norm of ", show(a));
    Serie s = build(c, a);
    M w = M::empty(1, 3), w2 = w;
    Array m1, m2;
    for (uint32_t i = 0; i < a.n; ++i) {
        long double t = 0;
        for (uint32_t j = 0; j < a.isz; ++j)
            t += (long double)a.at(i, j) * a.at(i, j);
        w2.push({double(t)});
        w.push({double(sqrtl(t))});
        m1.push_back(double(sqrtl(t)));
        m2.push_back(double(t));
    }
    expectCloseOrNone(norm2(s), w2, "norm2", m2, TOL);
    expectCloseOrNone(norm(s), w, "norm", m1, TOL);
    expectCloseOrNone(dot(s, s), w2, "dot with itself", m2, TOL);
    expectSame(s, a, "the Serie given to norm", WITH_DIM);
    c.nontrivial(a.n >= 2);
}

LAW(cross, 8, "components of cross, orthogonality, antisymmetry, handedness, Lagrange identity") {
    int e = genScale(c);
    M a = genItems(c, 3, e);
    Group g;
    g.add(c, a);
    M b = genAlike(c, a, c.chance(1, 3) ? -e : e);
    for (uint32_t i = 0; i < b.n; ++i) // parallel or perpendicular now and then
        if (i % 5 == 3)
            for (int j = 0; j < 3; ++j)
                b.v[i * 3 + j] = -2 * a.v[i * 3 + j];
    g.add(c, b);
    b = g.ms[1];
    c.log("cross of\n", g.text());
    Serie r = cross(g[0], g[1]), q = cross(g[1], g[0]);
    M w = M::empty(3, a.dim), o = w;
    Array mag;
    for (uint32_t i = 0; i < a.n; ++i) {
        Array x = a.item(i), y = b.item(i), z(3), zo(3);
        for (int j = 0; j < 3; ++j) {
            int k = (j + 1) % 3, l = (j + 2) % 3;
            z[j] = x[k] * y[l] - x[l] * y[k];
            zo[j] = -z[j];
            mag.push_back(mag3(x, y, j));
        }
        w.push(z);
        o.push(zo);
    }
    expectCloseOrNone(r, w, "cross", mag, TOL);
    expectCloseOrNone(q, o, "cross the other way", mag, TOL);
    for (uint32_t i = 0; i < a.n; ++i) {
        Array x = a.item(i), y = b.item(i), z = r.value(i);
        long double dx = 0, dy = 0, mx = 0, my = 0, z2 = 0, x2 = 0, y2 = 0, xy = 0;
        for (int j = 0; j < 3; ++j) {
            dx += (long double)x[j] * z[j];
            dy += (long double)y[j] * z[j];
            mx += fabsl((long double)x[j]) * mag[i * 3 + j];
            my += fabsl((long double)y[j]) * mag[i * 3 + j];
            z2 += (long double)z[j] * z[j];
            x2 += (long double)x[j] * x[j];
            y2 += (long double)y[j] * y[j];
            xy += (long double)x[j] * y[j];
        }
        CHECK(fabsl(dx) <= 1e-10L * mx && fabsl(dy) <= 1e-10L * my, "cross of item ", i, " is not orthogonal to its operands");
        CHECK(fabsl(z2 - (x2 * y2 - xy * xy)) <= 1e-10L * (x2 * y2), "cross of item ", i, " has the wrong length");
    }
    g.unchanged("an operand of cross");
    c.nontrivial(a.n >= 2);
}

LAW(bilinear, 4, "dot and cross are bilinear; the triple product is invariant under rotation of its factors") {
    M a = genM(c, {.prof = EXACT, .minCount = 1, .maxCount = 1000, .isz = 3}), b = genLike(c, a, EXACT, 3), d = genLike(c, a, EXACT, 3);
    double k = double(c.range(-16, 16)) / 4;
    c.log("a ", show(a), "\n b ", show(b), "\n c ", show(d), " k ", k);
    Serie A = build(c, a), B = build(c, b), D = build(c, d);
    Serie kab = df::math::add(df::math::scale(A, k), B); // k a + b
    Serie l1 = cross(kab, D), r1 = df::math::add(df::math::scale(cross(A, D), k), cross(B, D));
    Serie l2 = dot(kab, D), r2 = df::math::add(df::math::scale(dot(A, D), k), dot(B, D));
    Serie t1 = dot(A, cross(B, D)), t2 = dot(B, cross(D, A)), t3 = dot(D, cross(A, B));
    for (uint32_t i = 0; i < a.n; ++i) {
        double na = 0, nb = 0, nd = 0;
        for (int j = 0; j < 3; ++j) {
            na += std::fabs(a.at(i, j));
            nb += std::fabs(b.at(i, j));
            nd += std::fabs(d.at(i, j));
        }
        double m = (std::fabs(k) * na + nb) * nd;
        for (int j = 0; j < 3; ++j)
            CHECK(close(l1.value(i)[j], r1.value(i)[j], m, TOL), "cross is not linear at item ", i);
        CHECK(close(l2.scalar(i), r2.scalar(i), m, TOL), "dot is not linear at item ", i);
        CHECK(close(t1.scalar(i), t2.scalar(i), na * nb * nd, TOL) && close(t1.scalar(i), t3.scalar(i), na * nb * nd, TOL),
              "the triple product changes under rotation at item ", i, ": ", num(t1.scalar(i)), " ", num(t2.scalar(i)), " ",
              num(t3.scalar(i)));
    }
    c.nontrivial(a.n >= 2);
}

PBT_MAIN("C16",
         "A case takes products or norms of one to three generated Series (item sizes 1 to 30, 3 for cross, one "
         "object sometimes given twice, parallel vectors). Non-trivial: at least two items.",
         87000, 1200000)
