// C20: triangle mesh normals, areas and valences are geometrically right.
#include "model.hpp"
#include "all.hpp"
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Valence.h>

namespace {
using ::show;
using namespace df::geo;
using LD = long double;
constexpr double TOL = 1e-11;
struct Mesh {
    M p, t; // positions, triangles
};
Mesh genMesh(Ctx &c, unsigned prof, uint32_t maxT = 3000) {
    Mesh m;
    uint32_t np = 1 + genCount(c, 0, 2500), nt = genCount(c, 0, maxT);
    m.p = M::empty(3, 3);
    m.p.n = np;
    m.p.v = genValues(c, np * 3, prof);
    if (c.chance(1, 3)) // far from the origin
        for (size_t i = 0; i < m.p.v.size(); ++i)
            m.p.v[i] += i % 3 == 0 ? 1024 : i % 3 == 1 ? -4096 : 256;
    m.t = M::empty(3, 3);
    m.t.n = nt;
    int kind = (int)c.below(4);
    uint32_t hub = (uint32_t)c.below(np);
    Src s = source(c, nt * 3);
    for (uint32_t i = 0; i < nt; ++i) {
        double a, b, d;
        if (kind == 0) { // a strip
            a = i % np, b = (i + 1) % np, d = (i + 2) % np;
        } else if (kind == 1) { // a fan
            a = hub, b = i % np, d = (i + 1) % np;
        } else {
            a = s.below(np), b = s.below(np), d = s.below(np);
        }
        m.t.v.insert(m.t.v.end(), {a, b, d});
    }
    if (nt && c.chance(1, 4)) { // the last vertex is used
        m.t.v[c.below(m.t.v.size())] = np - 1;
        m.t.v[c.below(m.t.v.size())] = 0;
    }
    return m;
}
// More vertices than 16 bits can number, used by the last triangles
void grow(Ctx &c, Mesh &m) {
    if (!c.chance(1, 150))
        return;
    uint32_t np = (uint32_t)c.range(65537, 66500), old = m.p.n, nt = (uint32_t)c.range(1, 40);
    Src s = source(c, nt * 3);
    m.p.v.resize(size_t(np) * 3);
    for (uint32_t i = old; i < np; ++i)
        for (uint32_t j = 0; j < 3; ++j)
            m.p.v[size_t(i) * 3 + j] = double((i * (7 + 4 * j) + j * 13) % 1009) / 8 - 60;
    m.p.n = np;
    for (uint32_t i = 0; i < nt * 3; ++i)
        m.t.v.push_back(s.below(4) ? double(np - 1 - s.below(900)) : double(s.below(np)));
    m.t.n += nt;
    c.label("more than 65536 vertices");
}
void logMesh(Ctx &c, const Mesh &m) { c.log("positions ", show(m.p), "\nindices ", show(m.t)); }
struct Ref {
    M n, a;
    Array nmag, amag;
};
Ref reference(const Mesh &m) {
    Ref r{M::empty(3, 3), M::empty(1, 3), {}, {}};
    for (uint32_t i = 0; i < m.t.n; ++i) {
        LD e[2][3], l[2] = {0, 0};
        for (int k = 0; k < 2; ++k)
            for (int j = 0; j < 3; ++j) {
                e[k][j] = (LD)m.p.at((uint32_t)m.t.at(i, k + 1), j) - m.p.at((uint32_t)m.t.at(i, 0), j);
                l[k] += fabsl(e[k][j]);
            }
        LD n[3], q = 0;
        for (int j = 0; j < 3; ++j) {
            int a = (j + 1) % 3, b = (j + 2) % 3;
            n[j] = e[0][a] * e[1][b] - e[0][b] * e[1][a];
            q += n[j] * n[j];
        }
        r.n.push({double(n[0]), double(n[1]), double(n[2])});
        r.a.push({double(sqrtl(q) / 2)});
        for (int j = 0; j < 3; ++j)
            r.nmag.push_back(double(l[0] * l[1]));
        r.amag.push_back(double(l[0] * l[1]));
    }
    return r;
}
Array valences(const Mesh &m) {
    Array v(m.p.n, 0.0);
    for (double k : m.t.v)
        v[(size_t)k] += 1;
    return v;
}
Serie valence(const Serie &p, const Serie &t, bool manager) {
    df::Dataframe d;
    d.add("positions", p);
    d.add("indices", t);
    if (!manager) {
        df::Valence v("deg");
        return v.serie(d, 1, "deg");
    }
    df::Manager m(d, {new df::Valence("deg")});
    return m.serie(1, "deg");
}
} // namespace

LAW(mesh, 10, "normals, areas and valences of every triangle and vertex") {
    Mesh m = genMesh(c, FINITE);
    grow(c, m);
    logMesh(c, m);
    Serie p = build(c, m.p), t = build(c, m.t);
    Ref r = reference(m);
    expectClose(normals(p, t), r.n, "normals", r.nmag, TOL);
    expectCloseOrNone(areas(p, t), r.a, "areas", r.amag, TOL);
    expectSame(valence(p, t, c.flip()), M::make(1, valences(m)), "valences");
    expectSame(p, m.p, "the positions", WITH_DIM);
    expectSame(t, m.t, "the indices", WITH_DIM);
    c.nontrivial(m.t.n >= 2 && m.p.n >= 3);
}

LAW(invariance, 6, "translation, starting vertex, orientation, order of the triangles and of the vertices") {
    Mesh m = genMesh(c, EXACT, 400);
    if (m.t.n == 0)
        throw pbt::Discard{};
    logMesh(c, m);
    double d[3] = {double(c.range(-64, 64)), double(c.range(-64, 64)), double(c.range(-64, 64))};
    Mesh tr = m, st = m, fl = m, pm = m, vp = m;
    for (size_t i = 0; i < tr.p.v.size(); ++i)
        tr.p.v[i] += d[i % 3];
    for (uint32_t i = 0; i < m.t.n; ++i) {
        for (int j = 0; j < 3; ++j)
            st.t.v[i * 3 + j] = m.t.at(i, (j + 1 + i % 2) % 3);
        std::swap(fl.t.v[i * 3 + i % 3], fl.t.v[i * 3 + (i + 1) % 3]);
    }
    std::vector<uint32_t> ti(m.t.n), vi(m.p.n);
    std::iota(ti.begin(), ti.end(), 0u);
    std::iota(vi.begin(), vi.end(), 0u);
    Src s = source(c, m.t.n + m.p.n);
    for (uint32_t i = m.t.n; i > 1; --i)
        std::swap(ti[i - 1], ti[s.below(i)]);
    for (uint32_t i = m.p.n; i > 1; --i)
        std::swap(vi[i - 1], vi[s.below(i)]);
    pm.t = m.t.select(ti);
    for (uint32_t i = 0; i < m.p.n; ++i) // vertex i becomes vertex vi[i]
        for (int j = 0; j < 3; ++j)
            vp.p.v[vi[i] * 3 + j] = m.p.at(i, j);
    for (auto &k : vp.t.v)
        k = vi[(size_t)k];
    Ref r = reference(m);
    auto mag = r.nmag;
    Array n = normals(build(c, m.p), build(c, m.t)).asArray(), a = areas(direct(m.p), direct(m.t)).asArray();
    CHECK(n.size() == m.t.n * 3 && a.size() == m.t.n, "wrong number of normals or areas");
    M N = M::make(3, n), A = M::make(1, a), F = N;
    for (auto &x : F.v)
        x = -x;
    expectClose(normals(direct(tr.p), direct(tr.t)), N, "normals of the translated mesh", mag, 1e-10);
    expectClose(areas(direct(tr.p), direct(tr.t)), A, "areas of the translated mesh", r.amag, 1e-10);
    expectClose(areas(direct(st.p), direct(st.t)), A, "areas from another starting vertex", r.amag, 1e-10);
    expectClose(normals(direct(st.p), direct(st.t)), N, "normals from another starting vertex", mag, 1e-10);
    expectClose(normals(direct(fl.p), direct(fl.t)), F, "normals of the flipped triangles", mag, 1e-10);
    expectClose(areas(direct(fl.p), direct(fl.t)), A, "areas of the flipped triangles", r.amag, 1e-10);
    expectSame(normals(direct(pm.p), direct(pm.t)), N.select(ti), "normals of the reordered triangles");
    expectSame(areas(direct(pm.p), direct(pm.t)), A.select(ti), "areas of the reordered triangles");
    expectSame(normals(direct(vp.p), direct(vp.t)), N, "normals after renumbering the vertices");
    Array v = valence(direct(m.p), direct(m.t), false).asArray(), w = valence(direct(vp.p), direct(vp.t), true).asArray();
    double total = 0;
    for (uint32_t i = 0; i < m.p.n; ++i) {
        CHECK(v[i] == w[vi[i]], "the valence of vertex ", i, " is ", num(v[i]), ", ", num(w[vi[i]]), " after renumbering");
        total += v[i];
    }
    CHECK(total == m.t.n * 3.0, "the valences add up to ", num(total), " for ", m.t.n, " triangles");
    for (uint32_t i = 0; i < m.t.n; ++i) {
        LD q = 0;
        for (int j = 0; j < 3; ++j)
            q += (LD)n[i * 3 + j] * n[i * 3 + j];
        CHECK(close(a[i] * 2, double(sqrtl(q)), r.amag[i], 1e-10), "the normal of triangle ", i, " is not twice as long as its area");
    }
    c.nontrivial(m.t.n >= 2 && m.p.n >= 3);
}

LAW(refined, 4, "cutting every triangle at the middle of an edge: the areas of the halves add up") {
    Mesh m = genMesh(c, EXACT, 400), q = m;
    logMesh(c, m);
    q.t = M::empty(3, 3);
    for (uint32_t i = 0; i < m.t.n; ++i) {
        Array mid(3);
        for (int j = 0; j < 3; ++j)
            mid[j] = (m.p.at((uint32_t)m.t.at(i, 1), j) + m.p.at((uint32_t)m.t.at(i, 2), j)) / 2;
        double k = q.p.n;
        q.p.push(mid);
        q.t.push({m.t.at(i, 0), m.t.at(i, 1), k});
        q.t.push({m.t.at(i, 0), k, m.t.at(i, 2)});
    }
    Ref r = reference(m);
    Array a = areas(build(c, m.p), build(c, m.t)).asArray(), b = areas(direct(q.p), direct(q.t)).asArray();
    Array n = normals(direct(m.p), direct(m.t)).asArray(), h = normals(direct(q.p), direct(q.t)).asArray();
    CHECK(a.size() == m.t.n && b.size() == 2 * m.t.n && n.size() == 3 * a.size() && h.size() == 3 * b.size(), "wrong number of areas");
    for (uint32_t i = 0; i < m.t.n; ++i) {
        CHECK(close(b[2 * i], a[i] / 2, r.amag[i], 1e-10) && close(b[2 * i + 1], a[i] / 2, r.amag[i], 1e-10), "the halves of triangle ", i,
              " have areas ", num(b[2 * i]), " and ", num(b[2 * i + 1]), ", the whole ", num(a[i]));
        for (int j = 0; j < 3; ++j)
            CHECK(close(h[6 * i + j], n[3 * i + j] / 2, r.amag[i], 1e-10) && close(h[6 * i + 3 + j], n[3 * i + j] / 2, r.amag[i], 1e-10),
                  "the normals of the halves of triangle ", i, " are not half of its normal");
    }
    c.nontrivial(m.t.n >= 2);
}

PBT_MAIN("C20",
         "A case is a generated triangle mesh (strip, fan or random corners, degenerate triangles, unused vertices, "
         "far from the origin) and its translated, flipped, renumbered, reordered or refined variants. Non-trivial: "
         "two triangles and three vertices.",
         54000, 500000)
