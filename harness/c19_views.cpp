// C19: Matrix and Vector views implement matrix-vector algebra.
#include "model.hpp"
#include <dataframe/view/Matrix.h>
#include <memory>

namespace {
using ::show;
using df::Matrix;
using df::Vector;
using LD = long double;
constexpr double TOL = 1e-12;
struct Mat {
    uint32_t n;
    Array a;
    double at(uint32_t i, uint32_t j) const { return a[i * n + j]; }
};
std::string show(const Mat &m) { return show(m.a, m.n, 100); }
Mat genMat(Ctx &c, uint32_t n, unsigned prof = FINITE) {
    Mat m{n, genValues(c, n * n, prof)};
    if (c.chance(1, 4)) // symmetric
        for (uint32_t i = 0; i < n; ++i)
            for (uint32_t j = 0; j < i; ++j)
                m.a[i * n + j] = m.a[j * n + i];
    else if (n > 1 && c.chance(1, 4)) { // symmetric but for one pair
        for (uint32_t i = 0; i < n; ++i)
            for (uint32_t j = 0; j < i; ++j)
                m.a[i * n + j] = m.a[j * n + i];
        uint32_t i = (uint32_t)c.range(1, n - 1), j = (uint32_t)c.below(i);
        double &d = m.a[i * n + j];
        switch (c.below(4)) { // by much, by one bit, or little next to coefficients of that size
        case 0:
        case 1:
            d += 1;
            break;
        case 2:
            d = std::nextafter(d, c.flip() ? INFINITY : -INFINITY);
            break;
        case 3: {
            double s = std::ldexp(1.0, -(int)c.range(20, 60));
            for (auto &x : m.a)
                x *= s;
            d += s;
        }
        }
    }
    return m;
}
bool symmetric(const Mat &m) {
    for (uint32_t i = 0; i < m.n; ++i)
        for (uint32_t j = 0; j < i; ++j)
            if (m.at(i, j) != m.at(j, i))
                return false;
    return true;
}
void expectMat(const Matrix &m, const Mat &w, const std::string &what, const Array &mag = {}) {
    CHECK(m.length() == w.n * w.n, what, " has ", m.length(), " coefficients instead of ", w.n * w.n);
    for (uint32_t i = 0; i < w.n; ++i)
        for (uint32_t j = 0; j < w.n; ++j)
            CHECK(close(m.at(i, j), w.at(i, j), mag.empty() ? 0 : mag[i * w.n + j], TOL), what, " has ", num(m.at(i, j)),
                  " at (", i, ", ", j, "), expected ", num(w.at(i, j)));
}
void expectVec(const Vector &v, const Array &w, const std::string &what, const Array &mag = {}) {
    CHECK(v.length() == w.size() && v.array().size() == w.size(), what, " has ", v.length(), " values instead of ", w.size());
    for (uint32_t i = 0; i < w.size(); ++i) {
        CHECK(close(v.at(i), w[i], mag.empty() ? 0 : mag[i], TOL), what, " has ", num(v.at(i)), " at ", i, ", expected ", num(w[i]));
        CHECK(sameBits(v.at(i), v[i]) && sameBits(v.array()[i], v[i]), what, ": at, [] and array() disagree at ", i);
    }
}
Matrix make(Ctx &c, const Mat &m) { // the coefficients given to it do not outlive the call
    auto tmp = std::make_unique<Array>(m.a);
    Matrix r = c.flip() ? Matrix(*tmp, m.n) : df::squaredMatrix(*tmp);
    std::fill(tmp->begin(), tmp->end(), -12345.0);
    return r;
}
uint32_t genOrder(Ctx &c) {
    if (c.chance(1, 1000))
        return (uint32_t)c.range(250, 300);
    return c.chance(1, 8) ? (uint32_t)c.range(7, 40) : (uint32_t)c.range(1, 6);
}
Array mulMat(const Mat &x, const Mat &y, Array &mag) {
    Array r;
    for (uint32_t i = 0; i < x.n; ++i)
        for (uint32_t j = 0; j < x.n; ++j) {
            LD t = 0, m = 0;
            for (uint32_t k = 0; k < x.n; ++k) {
                t += (LD)x.at(i, k) * y.at(k, j);
                m += fabsl((LD)x.at(i, k) * y.at(k, j));
            }
            r.push_back(double(t));
            mag.push_back(double(m));
        }
    return r;
}
} // namespace

LAW(matrix, 6, "coefficients, trace, transpose, symmetry, products") {
    uint32_t n = genOrder(c);
    Mat x = genMat(c, n), y = genMat(c, n);
    Array v = genValues(c, n, FINITE);
    c.log("A ", show(x), "\n B ", show(y), "\n v ", show(v));
    Matrix A = make(c, x), B = make(c, y);
    expectMat(A, x, "the matrix");
    CHECK(A.isSymmetric() == symmetric(x), "isSymmetric is ", A.isSymmetric());
    LD t = 0, tm = 0;
    for (uint32_t i = 0; i < n; ++i) {
        t += x.at(i, i);
        tm += std::fabs(x.at(i, i));
    }
    CHECK(close(A.trace(), double(t), double(tm), TOL), "trace is ", num(A.trace()), ", expected ", num(double(t)));
    Mat xt = x;
    for (uint32_t i = 0; i < n; ++i)
        for (uint32_t j = 0; j < n; ++j)
            xt.a[i * n + j] = x.at(j, i);
    expectMat(A.transpose(), xt, "the transpose");
    expectMat(A.transpose().transpose(), x, "the transpose of the transpose");
    Array mv, wv;
    for (uint32_t i = 0; i < n; ++i) {
        LD s = 0, m = 0;
        for (uint32_t j = 0; j < n; ++j) {
            s += (LD)x.at(i, j) * v[j];
            m += fabsl((LD)x.at(i, j) * v[j]);
        }
        wv.push_back(double(s));
        mv.push_back(double(m));
    }
    expectVec(A.multVec(Vector(v)), wv, "matrix times vector", mv);
    if (n < 100 || c.chance(1, 2)) {
        Array mm;
        Mat p{n, mulMat(x, y, mm)};
        expectMat(A.multMat(B), p, "matrix times matrix", mm);
    }
    if (symmetric(x)) {
        Array packed;
        for (uint32_t i = 0; i < n; ++i)
            for (uint32_t j = i; j < n; ++j)
                packed.push_back(x.at(i, j));
        expectVec(A.array(), packed, "array of a symmetric matrix");
    } else
        expectVec(A.array(), x.a, "array of a matrix");
    expectMat(A, x, "the matrix after all that");
    expectMat(B, y, "the other matrix");
    c.nontrivial(n >= 2);
}

LAW(packing, 5, "a symmetric packing expands to the symmetric matrix and back") {
    uint32_t n = genOrder(c);
    Array v = genValues(c, n * (n + 1) / 2, FINITE | WIDE);
    c.log("packed ", show(v, 0, 100), " of order ", n);
    Mat w{n, Array(n * n)};
    size_t k = 0;
    for (uint32_t i = 0; i < n; ++i)
        for (uint32_t j = i; j < n; ++j)
            w.a[i * n + j] = w.a[j * n + i] = v[k++];
    auto tmp = std::make_unique<Array>(v);
    Matrix A = df::symSquaredMatrix(*tmp);
    std::fill(tmp->begin(), tmp->end(), -12345.0);
    tmp.reset();
    expectMat(A, w, "the expanded matrix");
    CHECK(A.isSymmetric(), "the expanded matrix is not symmetric");
    expectVec(A.array(), v, "its packing");
    expectMat(df::symSquaredMatrix(A.array().array()), w, "the expansion of its packing");
    c.nontrivial(n >= 2);
}

LAW(vector, 8, "a history of vector operations on several vectors, chained") {
    uint32_t n = c.chance(1, 300) ? (uint32_t)c.range(250, 300) : c.chance(1, 8) ? (uint32_t)c.range(10, 60) : (uint32_t)c.range(1, 8);
    int nv = (int)c.range(2, 3);
    std::vector<Vector> v;
    std::vector<Array> w;
    std::vector<Array> mag; // magnitudes carried along
    for (int k = 0; k < nv; ++k) {
        Array a = genValues(c, n, INTS | DYADIC | REAL | POSITIVE | IDENT);
        v.push_back(Vector(a));
        w.push_back(a);
        Array m = a;
        for (auto &x : m)
            x = std::fabs(x);
        mag.push_back(m);
    }
    Vector copy;
    CHECK(copy.length() == 0 && copy.array().empty(), "a Vector of nothing has ", copy.length(), " components");
    copy = v[0];
    const Array first = w[0];
    int steps = (int)c.range(1, 8);
    for (int k = 0; k < nv; ++k)
        c.log("v", k, " ", show(w[k]));
    auto apply = [&](int t, int op, int o, double s) { // model
        Array b = w[o], bm = mag[o];
        LD q = 0;
        for (double x : w[t])
            q += (LD)x * x;
        for (uint32_t i = 0; i < n; ++i)
            switch (op) {
            case 0:
                w[t][i] *= s;
                mag[t][i] *= std::fabs(s);
                break;
            case 1:
                w[t][i] *= b[i];
                mag[t][i] *= bm[i];
                break;
            case 2:
                w[t][i] += b[i];
                mag[t][i] += bm[i];
                break;
            case 3:
                w[t][i] -= b[i];
                mag[t][i] += bm[i];
                break;
            case 4:
                w[t][i] = double(w[t][i] / sqrtl(q));
                mag[t][i] = double(mag[t][i] / sqrtl(q));
                break;
            }
    };
    for (int k = 0; k < steps; ++k) {
        int t = (int)c.below(nv), op = (int)c.below(7), o = (int)c.below(nv);
        double s = double(c.range(-12, 12)) / 4;
        LD q = 0, qm = 0;
        for (uint32_t i = 0; i < n; ++i) {
            q += (LD)w[t][i] * w[t][i];
            qm += (LD)mag[t][i] * mag[t][i];
        }
        if (op == 4 && !(q > 1e-6L * qm && qm > 0))
            op = 0; // the direction is lost in rounding
        if (qm > 1e60L)
            op = 5;
        c.log("step ", k, ": op ", op, " on v", t, " with v", o, " and ", s);
        Vector *r = nullptr;
        switch (op) {
        case 0:
            r = &v[t].mult(s);
            break;
        case 1:
            r = &v[t].mult(v[o]);
            break;
        case 2:
            r = &v[t].add(v[o]);
            break;
        case 3:
            r = &v[t].sub(v[o]);
            break;
        case 4:
            r = &v[t].normalize();
            break;
        case 5: {
            LD d = 0, dm = 0;
            for (uint32_t i = 0; i < n; ++i) {
                d += (LD)w[t][i] * w[o][i];
                dm += (LD)mag[t][i] * mag[o][i];
            }
            double g = v[t].dot(v[o]);
            CHECK(fabsl(g - d) <= 1e-11L * dm, "dot of v", t, " and v", o, " is ", num(g), ", expected ", num(double(d)));
            break;
        }
        case 6: { // a chain
            apply(t, 0, o, s);
            apply(t, 2, o, s);
            apply(t, 3, (o + 1) % nv, s);
            v[t].mult(s).add(v[o]).sub(v[(o + 1) % nv]);
            break;
        }
        }
        if (op <= 4)
            apply(t, op, o, s);
        CHECK(!r || r == &v[t], "the operation did not return its vector");
        for (int x = 0; x < nv; ++x) {
            Array m = mag[x];
            for (auto &y : m)
                y *= 100;
            expectVec(v[x], w[x], "v" + std::to_string(x) + " after step " + std::to_string(k), m);
            LD nn = 0, nm = 0;
            for (uint32_t i = 0; i < n; ++i) {
                nn += (LD)w[x][i] * w[x][i];
                nm += (LD)mag[x][i] * mag[x][i];
            }
            CHECK(fabsl(v[x].norm() - sqrtl(nn)) <= 1e-9L * sqrtl(nm), "norm of v", x, " is ", num(v[x].norm()), ", expected ",
                  num(double(sqrtl(nn))));
        }
    }
    Array src = w[0];
    Vector a(src), b = a;
    src[0] += 1;
    a.mult(0);
    expectVec(b, w[0], "a copy of a vector whose source was changed");
    CHECK(sameBits(copy.array(), first), "operations on a Vector have changed its copy");
    c.nontrivial(n >= 2 && steps >= 2);
}

LAW(algebra, 4, "(AB)v = A(Bv), (AB)^T = B^T A^T, trace(AB) = trace(BA), of results kept after their operands are gone") {
    uint32_t n = (uint32_t)c.range(1, 6);
    Mat x = genMat(c, n, EXACT), y = genMat(c, n, EXACT);
    Array v = genValues(c, n, EXACT);
    c.log("A ", show(x), "\n B ", show(y), "\n v ", show(v));
    auto A = std::make_unique<Matrix>(make(c, x)), B = std::make_unique<Matrix>(make(c, y));
    Matrix ab = A->multMat(*B), ba = B->multMat(*A), tt = B->transpose().multMat(A->transpose());
    Vector l = ab.multVec(Vector(v)), r = A->multVec(B->multVec(Vector(v)));
    A.reset();
    B.reset();
    std::vector<Array> trash(8, Array(n * n, 7.0)); // reuses the freed memory
    double big = 1;
    for (auto *p : {&x.a, &y.a}) {
        double s = 0;
        for (double d : *p)
            s += std::fabs(d);
        big *= std::max(1.0, s);
    }
    double bv = 0;
    for (double d : v)
        bv += std::fabs(d);
    for (uint32_t i = 0; i < n; ++i) {
        CHECK(close(l.at(i), r.at(i), big * bv, TOL), "(AB)v and A(Bv) differ at ", i, ": ", num(l.at(i)), " and ", num(r.at(i)));
        for (uint32_t j = 0; j < n; ++j)
            CHECK(close(ab.at(j, i), tt.at(i, j), big, TOL), "(AB)^T and B^T A^T differ at (", i, ", ", j, ")");
    }
    CHECK(close(ab.trace(), ba.trace(), big, TOL), "trace(AB) is ", num(ab.trace()), ", trace(BA) ", num(ba.trace()));
    c.nontrivial(n >= 2);
}

PBT_MAIN("C19",
         "A case builds matrices of order 1 to 40, rarely 250 to 300 (symmetric, nearly symmetric, any) or two to three vectors with a "
         "history of up to 8 operations, and compares everything readable with linear algebra. Non-trivial: order or "
         "length at least 2.",
         480000, 3840000)
