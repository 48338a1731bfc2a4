// C17: det, inv and transpose agree with matrix algebra.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
using namespace df::algebra;
using LD = long double;
struct Mat {
    int n = 3;
    LD a[3][3] = {};
};
bool symStored(uint32_t isz) { return isz == 3 || isz == 6; }
Mat expand(const Array &v) { // storage of an item
    Mat m;
    m.n = v.size() <= 4 ? 2 : 3;
    size_t k = 0;
    for (int i = 0; i < m.n; ++i)
        for (int j = symStored(v.size()) ? i : 0; j < m.n; ++j) {
            m.a[i][j] = v[k++];
            if (symStored(v.size()))
                m.a[j][i] = m.a[i][j];
        }
    return m;
}
LD determinant(const Mat &m) {
    if (m.n == 2)
        return m.a[0][0] * m.a[1][1] - m.a[0][1] * m.a[1][0];
    LD d = 0;
    for (int j = 0; j < 3; ++j)
        d += m.a[0][j] * (m.a[1][(j + 1) % 3] * m.a[2][(j + 2) % 3] - m.a[1][(j + 2) % 3] * m.a[2][(j + 1) % 3]);
    return d;
}
LD permanent(const Mat &m) { // magnitude of the terms of the determinant
    if (m.n == 2)
        return fabsl(m.a[0][0] * m.a[1][1]) + fabsl(m.a[0][1] * m.a[1][0]);
    LD d = 0;
    for (int j = 0; j < 3; ++j)
        d += fabsl(m.a[0][j]) * (fabsl(m.a[1][(j + 1) % 3] * m.a[2][(j + 2) % 3]) + fabsl(m.a[1][(j + 2) % 3] * m.a[2][(j + 1) % 3]));
    return d;
}
M genMats(Ctx &c, uint32_t isz, unsigned dim, unsigned prof = FINITE) {
    M m = genM(c, {.prof = prof, .maxCount = 3000, .isz = isz, .dim = dim});
    for (uint32_t i = 0; i < m.n; ++i) // sparse, diagonal and singular matrices now and then
        if (i % 4 == 3)
            for (uint32_t j = 0; j < isz; ++j)
                if ((i * 7 + j * 3) % 5 < 2)
                    m.v[size_t(i) * isz + j] = 0;
    return m;
}
} // namespace

LAW(det, 8, "determinants of 2D and 3D matrices, symmetric or full") {
    static const uint32_t szs[] = {9, 6, 4, 3};
    uint32_t isz = szs[c.below(4)];
    M m = genMats(c, isz, isz <= 4 ? 2 : 3);
    c.log("det of ", show(m));
    Serie s = build(c, m);
    M w = M::empty(1, m.dim);
    Array mag;
    for (uint32_t i = 0; i < m.n; ++i) {
        Mat x = expand(m.item(i));
        w.push({double(determinant(x))});
        mag.push_back(double(permanent(x)));
    }
    expectCloseOrNone(det(s), w, "det", mag, 1e-11);
    expectSame(s, m, "the Serie given to det", WITH_DIM);
    c.nontrivial(m.n >= 2);
}

LAW(inv, 8, "the product with the inverse is the identity, the inverse of the inverse the matrix") {
    uint32_t isz = c.flip() ? 9 : 6;
    M m = genMats(c, isz, 3);
    // down to |det| of 2e-9: a matrix whose determinant is below 1e-10 counts as singular
    double k = std::ldexp(1.0, (int)c.range(-6, 6));
    Array worst;
    for (uint32_t i = 0; i < m.n; ++i) {
        // scaled entries in about [-k, k], made well-conditioned by the diagonal when necessary
        double big = 0;
        for (uint32_t j = 0; j < isz; ++j)
            big = std::max(big, std::fabs(m.at(i, j)));
        for (uint32_t j = 0; j < isz; ++j)
            m.v[size_t(i) * isz + j] = big > 0 ? m.at(i, j) / big * k : 0;
        Mat x = expand(m.item(i));
        if (fabsl(determinant(x)) < 1e-3L * k * k * k) {
            static const uint32_t d9[] = {0, 4, 8}, d6[] = {0, 3, 5};
            for (int q = 0; q < 3; ++q) {
                double &v = m.v[size_t(i) * isz + (isz == 9 ? d9[q] : d6[q])];
                v += (v < 0 ? -3 : 3) * k;
            }
        }
    }
    c.log("inv of ", show(m));
    Serie s = build(c, m);
    for (uint32_t i = 0; i < m.n; ++i) // still badly conditioned: no claim
        if (fabsl(determinant(expand(m.item(i)))) < 1e-3L * k * k * k)
            throw pbt::Discard{};
    Serie r = inv(s);
    if (m.n == 0) {
        CHECK(r.count() == 0, "inv of an empty Serie is not empty");
        return;
    }
    expectShape(r, isz, m.n, "inv");
    for (uint32_t i = 0; i < m.n; ++i) {
        Mat x = expand(m.item(i)), y = expand(r.value(i));
        LD nx = 0, ny = 0;
        for (int a = 0; a < 3; ++a)
            for (int b = 0; b < 3; ++b) {
                nx = std::max(nx, fabsl(x.a[a][b]));
                ny = std::max(ny, fabsl(y.a[a][b]));
            }
        LD tol = 1e-11L * (1 + nx * ny) * (1 + nx * ny);
        for (int side = 0; side < 2; ++side)
            for (int a = 0; a < 3; ++a)
                for (int b = 0; b < 3; ++b) {
                    LD t = a == b ? -1 : 0;
                    for (int q = 0; q < 3; ++q)
                        t += side ? y.a[a][q] * x.a[q][b] : x.a[a][q] * y.a[q][b];
                    CHECK(fabsl(t) <= tol, side ? "inverse times matrix" : "matrix times inverse", " of item ", i,
                          " is not the identity at (", a, ", ", b, "), off by ", (double)t);
                }
    }
    expectSame(s, m, "the Serie given to inv", WITH_DIM);
    c.nontrivial(m.n >= 2);
}

LAW(transpose, 6, "rows become columns, twice is the identity") {
    uint32_t isz = c.flip() ? 9 : 4, d = isz == 9 ? 3 : 2;
    M m = genM(c, {.prof = ANY, .isz = isz, .dim = c.chance(1, 4) ? 0 : d});
    c.log("transpose of ", show(m));
    Serie s = build(c, m);
    M w = m;
    for (uint32_t i = 0; i < m.n; ++i)
        for (uint32_t a = 0; a < d; ++a)
            for (uint32_t b = 0; b < d; ++b)
                w.v[size_t(i) * isz + a * d + b] = m.at(i, b * d + a);
    Serie r = transpose(s);
    expectSameOrNone(r, w, "transpose");
    if (m.n)
        expectSameOrNone(transpose(r), m, "transpose of the transpose");
    expectSame(s, m, "the Serie given to transpose", WITH_DIM);
    c.nontrivial(m.n >= 2);
}

LAW(relations, 5, "det of products, transposes, inverses and row exchanges") {
    uint32_t isz = c.flip() ? 9 : 4, d = isz == 9 ? 3 : 2;
    M a = genM(c, {.prof = INTS | DYADIC | FEW | REAL, .minCount = 1, .maxCount = 500, .isz = isz, .dim = d}), b = a;
    b.v = genValues(c, a.v.size(), INTS | FEW | REAL);
    M p = a, x = a;
    for (uint32_t i = 0; i < a.n; ++i)
        for (uint32_t r = 0; r < d; ++r)
            for (uint32_t q = 0; q < d; ++q) {
                double t = 0;
                for (uint32_t k = 0; k < d; ++k)
                    t += a.at(i, r * d + k) * b.at(i, k * d + q);
                p.v[size_t(i) * isz + r * d + q] = t;
                x.v[size_t(i) * isz + r * d + q] = a.at(i, (r == 0 ? 1 : r == 1 ? 0 : r) * d + q);
            }
    c.log("a ", show(a), "\n b ", show(b));
    Array da = det(build(c, a)).asArray(), db = det(build(c, b)).asArray(), dp = det(direct(p)).asArray(),
          dt = det(transpose(direct(a))).asArray(), dx = det(direct(x)).asArray();
    for (uint32_t i = 0; i < a.n; ++i) {
        LD ma = permanent(expand(a.item(i))), mb = permanent(expand(b.item(i))), mp = permanent(expand(p.item(i)));
        CHECK(fabsl((LD)da[i] * db[i] - dp[i]) <= 1e-10L * (ma * mb + mp), "det(AB) differs from det A det B at item ", i);
        CHECK(fabsl((LD)da[i] - dt[i]) <= 1e-11L * ma, "det of the transpose differs at item ", i);
        CHECK(fabsl((LD)da[i] + dx[i]) <= 1e-11L * ma, "exchanging two rows does not change the sign of det at item ", i);
    }
    c.nontrivial(a.n >= 2);
}

PBT_MAIN("C17",
         "A case takes determinants, inverses or transposes of a generated Serie of 2D or 3D matrices (symmetric or "
         "full storage; dense, sparse, diagonal, singular for det). Non-trivial: at least two matrices.",
         79000, 1500000)
