// C18: eigen decompositions reconstruct the symmetric matrix.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
using namespace df::algebra;
using LD = long double;
struct Sym {
    int n;
    LD a[3][3];
};
Sym expand(const Array &v) {
    Sym s;
    s.n = v.size() == 3 ? 2 : 3;
    size_t k = 0;
    for (int i = 0; i < s.n; ++i)
        for (int j = i; j < s.n; ++j)
            s.a[i][j] = s.a[j][i] = v[k++];
    return s;
}
Array pack(const Sym &s) {
    Array v;
    for (int i = 0; i < s.n; ++i)
        for (int j = i; j < s.n; ++j)
            v.push_back(double(s.a[i][j]));
    return v;
}
// one symmetric matrix of a chosen kind
Array genSym(Src &s, int n, int kind) {
    auto val = [&] { return double(zigzag(s.below(4001))) / 100; };
    Sym m;
    m.n = n;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            m.a[i][j] = 0;
    switch (kind) {
    case 0: // anything
    case 1:
        for (int i = 0; i < n; ++i)
            for (int j = i; j < n; ++j)
                m.a[i][j] = m.a[j][i] = val();
        break;
    case 2: // diagonal
        for (int i = 0; i < n; ++i)
            m.a[i][i] = val();
        break;
    case 3: // equal diagonal
        for (int i = 0; i < n; ++i)
            for (int j = i; j < n; ++j)
                m.a[i][j] = m.a[j][i] = i == j ? 2 : val();
        break;
    case 4: { // rank one
        double w[3] = {val(), val(), val()};
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                m.a[i][j] = w[i] * w[j] / 10;
        break;
    }
    case 5: // nearly diagonal
        for (int i = 0; i < n; ++i)
            for (int j = i; j < n; ++j)
                m.a[i][j] = m.a[j][i] = i == j ? val() : val() * 1e-5;
        break;
    case 6: { // one off-diagonal term only
        for (int i = 0; i < n; ++i)
            m.a[i][i] = val();
        int i = (int)s.below(n), j = (i + 1) % n;
        m.a[i][j] = m.a[j][i] = val();
        break;
    }
    case 7: // zero diagonal
        for (int i = 0; i < n; ++i)
            for (int j = i + 1; j < n; ++j)
                m.a[i][j] = m.a[j][i] = val();
        break;
    case 8: { // repeated eigenvalues: a I + b w w^T
        double w[3] = {val(), val(), val()}, a = val(), b = val() / 20;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                m.a[i][j] = (i == j ? a : 0) + b * w[i] * w[j];
        break;
    }
    case 9: // small integers: many ties
        for (int i = 0; i < n; ++i)
            for (int j = i; j < n; ++j)
                m.a[i][j] = m.a[j][i] = double(zigzag(s.below(4)));
        break;
    default: // negative definite
        for (int i = 0; i < n; ++i)
            for (int j = i; j < n; ++j)
                m.a[i][j] = m.a[j][i] = i == j ? -50 - std::fabs(val()) : val() / 5;
    }
    return pack(m);
}
M genMats(Ctx &c, double *scale = nullptr) {
    M m;
    bool two = c.chance(2, 5);
    m.isz = two ? 3 : 6;
    m.dim = two ? 2 : 3;
    m.n = genCount(c, 0, 1500);
    static const double sc[] = {1,     1,    1e-3,  1e3,  1e-6,  1e6,  1e-9,   1e9,  1e-12,
                                1e-15, 1e15, 1e-20, 1e20, 1e-30, 1e40, 1e-100, 1e110};
    double k = sc[c.below(17)];
    if (scale)
        *scale = k;
    int kind = (int)c.below(12);
    Src s = source(c, size_t(m.n) * 7);
    uint32_t n = m.n;
    m.n = 0;
    for (uint32_t i = 0; i < n; ++i) {
        Array a = genSym(s, two ? 2 : 3, kind == 11 ? (int)s.below(11) : kind);
        for (auto &x : a)
            x *= k;
        m.push(a);
    }
    return m;
}
// one decomposition
void checkOne(const Array &mat, const Array &val, const Array &vec, uint32_t item) {
    Sym s = expand(mat);
    int n = s.n;
    LD off = 0, all = 0, tr = 0;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            all += s.a[i][j] * s.a[i][j];
            if (i < j)
                off += s.a[i][j] * s.a[i][j];
            if (i == j)
                tr += s.a[i][i];
        }
    off = sqrtl(off);
    all = sqrtl(all);
    LD sum = 0;
    for (int k = 0; k < n; ++k) {
        CHECK(std::isfinite(val[k]), "eigenvalue ", k, " of item ", item, " is ", num(val[k]));
        sum += val[k];
        if (k)
            CHECK(val[k] <= val[k - 1], "eigenvalues of item ", item, " are not in decreasing order: ", show(val));
        for (int l = k; l < n; ++l) {
            LD d = k == l ? -1 : 0;
            for (int i = 0; i < n; ++i)
                d += (LD)vec[k * n + i] * vec[l * n + i];
            CHECK(fabsl(d) <= 1e-9L, "eigenvectors ", k, " and ", l, " of item ", item, k == l ? " are not of length 1" : " are not orthogonal",
                  " (off by ", (double)d, ")");
        }
        LD res = 0, quot = 0;
        for (int i = 0; i < n; ++i) {
            LD t = -(LD)val[k] * vec[k * n + i];
            for (int j = 0; j < n; ++j)
                t += s.a[i][j] * vec[k * n + j];
            res += t * t;
            quot += vec[k * n + i] * t;
        }
        CHECK(fabsl(quot) <= 1e-9L * all, "eigenvalue ", k, " of item ", item, " is ", num(val[k]), ", v.Mv of its vector differs by ", (double)quot);
        res = sqrtl(res);
        CHECK(res <= 5e-3L * off + 1e-10L * all, "M v - l v of pair ", k, " of item ", item, " has length ", (double)res,
              " (off-diagonal magnitude ", (double)off, ")");
    }
    CHECK(fabsl(sum - tr) <= 1e-10L * all, "the eigenvalues of item ", item, " add up to ", (double)sum, ", the trace is ", (double)tr);
}
} // namespace

LAW(decomposition, 10, "order, orthonormality, M v = l v, trace; the three functions agree") {
    M m = genMats(c);
    c.log("eigen of ", show(m));
    Serie s = build(c, m);
    Serie val = eigenValues(s), vec = eigenVectors(s);
    auto [val2, vec2] = eigenSystem(s);
    uint32_t n = m.dim;
    expectSame(s, m, "the Serie given to eigen", WITH_DIM);
    if (m.n == 0) {
        CHECK(val.count() == 0 && vec.count() == 0 && val2.count() == 0 && vec2.count() == 0,
              "the decomposition of an empty Serie is not empty");
        return;
    }
    expectShape(val, n, m.n, "eigenValues");
    expectShape(vec, n * n, m.n, "eigenVectors");
    expectShape(val2, n, m.n, "values of eigenSystem");
    expectShape(vec2, n * n, m.n, "vectors of eigenSystem");
    for (uint32_t i = 0; i < m.n; ++i) {
        checkOne(m.item(i), val.value(i), vec.value(i), i);
        double big = 0;
        for (double x : m.item(i))
            big = std::max(big, std::fabs(x));
        for (uint32_t k = 0; k < n; ++k)
            CHECK(close(val.value(i)[k], val2.value(i)[k], big, 1e-12), "eigenSystem gives eigenvalue ", num(val2.value(i)[k]),
                  " for item ", i, ", eigenValues ", num(val.value(i)[k]));
        for (uint32_t k = 0; k < n * n; ++k)
            CHECK(close(vec.value(i)[k], vec2.value(i)[k], 1, 1e-12), "eigenSystem gives another eigenvector than eigenVectors for item ", i);
    }
    c.nontrivial(m.n >= 2);
}

LAW(relations, 5, "shifted, scaled and permuted matrices have shifted, scaled and the same eigenvalues; items are independent") {
    double unit;
    M m = genMats(c, &unit);
    if (m.n == 0 || m.n > 60)
        throw pbt::Discard{};
    c.log("eigen of ", show(m));
    uint32_t n = m.dim;
    double sh = double(c.range(-20, 20)) * unit, k = double(c.range(1, 8)) / 2;
    M a = m, b = m, p = m;
    Array tol;
    for (uint32_t i = 0; i < m.n; ++i) {
        Sym s = expand(m.item(i)), q = s;
        LD off = 0, all = std::fabs(sh);
        for (uint32_t r = 0; r < n; ++r)
            for (uint32_t t = 0; t < n; ++t) {
                all += fabsl(s.a[r][t]);
                if (r < t)
                    off += s.a[r][t] * s.a[r][t];
                q.a[r][t] = s.a[(r + 1) % n][(t + 1) % n];
            }
        Array x = pack(q), y = m.item(i);
        Sym z = s;
        for (uint32_t r = 0; r < n; ++r)
            z.a[r][r] += sh;
        Array w = pack(z);
        for (uint32_t j = 0; j < m.isz; ++j) {
            p.v[size_t(i) * m.isz + j] = x[j];
            a.v[size_t(i) * m.isz + j] = w[j];
            b.v[size_t(i) * m.isz + j] = y[j] * k;
        }
        tol.push_back(double(1e-2L * sqrtl(off) + 1e-10L * all)); // both sides within the accuracy of the solver
    }
    Serie v = eigenValues(build(c, m)), va = eigenValues(direct(a)), vb = eigenValues(direct(b)), vp = eigenValues(direct(p));
    for (uint32_t i = 0; i < m.n; ++i)
        for (uint32_t j = 0; j < n; ++j) {
            double x = v.value(i)[j];
            CHECK(std::fabs(va.value(i)[j] - (x + sh)) <= tol[i], "adding ", sh, " I moved eigenvalue ", j, " of item ", i, " from ", num(x),
                  " to ", num(va.value(i)[j]));
            CHECK(std::fabs(vb.value(i)[j] - k * x) <= tol[i] * k, "scaling by ", k, " moved eigenvalue ", j, " of item ", i, " from ",
                  num(x), " to ", num(vb.value(i)[j]));
            CHECK(std::fabs(vp.value(i)[j] - x) <= tol[i], "exchanging the axes moved eigenvalue ", j, " of item ", i, " from ", num(x),
                  " to ", num(vp.value(i)[j]));
        }
    // each item alone
    uint32_t i = (uint32_t)c.below(m.n);
    Serie one = eigenValues(direct(m.select({i}))), vec = eigenVectors(direct(m)), onev = eigenVectors(direct(m.select({i})));
    CHECK(sameBits(one.value(0), v.value(i)) && sameBits(onev.value(0), vec.value(i)), "item ", i, " alone has another decomposition");
    c.nontrivial(m.n >= 2);
}

PBT_MAIN("C18",
         "A case decomposes a generated Serie of symmetric 2D or 3D matrices (general, diagonal, rank one, repeated "
         "eigenvalues, nearly diagonal, zero diagonal, ties; magnitudes 1e-100 to 1e110). Non-trivial: at least two "
         "matrices.",
         72000, 576000)
