// C07: zip and unzip are exact inverses.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
Group genGroup(Ctx &c, size_t k) {
    Group g;
    M a = genM(c, {.prof = ANY, .maxCount = 5000, .maxIsz = 9});
    g.add(c, a);
    while (g.size() < k)
        g.add(c, genLike(c, a, ANY, c.chance(1, 3) ? 1u : (uint32_t)c.range(1, c.chance(1, 12) ? 20 : 5)));
    return g;
}
M zipped(const Group &g) {
    M w = M::empty(0, g.ms[0].dim);
    for (auto &m : g.ms)
        w.isz += m.isz;
    for (uint32_t i = 0; i < g.ms[0].n; ++i) {
        Array a;
        for (auto &m : g.ms) {
            Array x = m.item(i);
            a.insert(a.end(), x.begin(), x.end());
        }
        w.push(a);
    }
    return w;
}
std::vector<uint32_t> sizes(const Group &g) {
    std::vector<uint32_t> r;
    for (auto &m : g.ms)
        r.push_back(m.isz);
    return r;
}
// slices of every item
std::vector<M> slices(const M &m, const std::vector<uint32_t> &sz) {
    std::vector<M> r;
    uint32_t o = 0;
    for (auto k : sz) {
        M x = M::empty(k, m.dim);
        for (uint32_t i = 0; i < m.n; ++i)
            x.push(Array(m.v.begin() + size_t(i) * m.isz + o, m.v.begin() + size_t(i) * m.isz + o + k));
        o += k;
        r.push_back(x);
    }
    return r;
}
std::vector<uint32_t> genCuts(Ctx &c, uint32_t isz) {
    std::vector<uint32_t> r;
    uint32_t left = isz;
    while (left) {
        uint32_t k = c.chance(1, 3) ? 1u : (uint32_t)c.range(1, left);
        r.push_back(k);
        left -= k;
    }
    return r;
}
} // namespace

LAW(zip, 8, "zip and zipVector give the concatenation of the items; unzip gives the Series back") {
    Group g = genGroup(c, (size_t)c.range(1, 6));
    c.log("zip of\n", g.text());
    M w = zipped(g);
    Serie r = spread(g, [](const auto &...s) { return df::utils::zip(s...); });
    expectSame(r, w, "zip", WITH_DIM);
    Serie v = df::utils::zipVector(g.copies());
    expectSame(v, w, "zipVector", WITH_DIM);
    auto back = df::utils::unzip(r, sizes(g));
    CHECK(back.size() == g.size(), "unzip gave ", back.size(), " Series instead of ", g.size());
    for (size_t k = 0; k < back.size(); ++k)
        expectSame(back[k], g.ms[k], "unzip of zip");
    Serie again = df::utils::zipVector(back);
    expectSame(again, w, "zip of unzip of zip", WITH_DIM);
    g.unchanged("a zipped Serie");
    expectSame(r, w, "the unzipped Serie", WITH_DIM);
    c.nontrivial(w.n >= 2 && g.size() >= 2);
}

LAW(many, 1, "zip, zipVector and unzip of many Series") {
    Group g;
    M a = genM(c, {.prof = ANY, .maxCount = 40, .maxIsz = 6});
    size_t n = genMany(c);
    g.add(c, a);
    while (g.size() < n)
        g.add(c, genLike(c, a, ANY, c.flip() ? 1u : (uint32_t)c.range(1, 12)));
    c.log("zip of\n", g.text());
    M w = zipped(g);
    Serie r = spreadMany(g.copies(), [](const auto &...s) { return df::utils::zip(s...); });
    expectSame(r, w, "zip", WITH_DIM);
    expectSame(df::utils::zipVector(g.copies()), w, "zipVector", WITH_DIM);
    auto back = df::utils::unzip(r, sizes(g));
    CHECK(back.size() == n, "unzip gave ", back.size(), " Series instead of ", n);
    for (size_t k = 0; k < n; ++k)
        expectSame(back[k], g.ms[k], "unzip of zip");
    g.unchanged("a zipped Serie");
    c.nontrivial(a.n >= 2);
}

LAW(unzip, 6, "unzip of any Serie gives the slices, and zip undoes it") {
    M m = genM(c, {.prof = ANY, .maxCount = 5000, .maxIsz = 24});
    auto cuts = genCuts(c, m.isz);
    std::string t;
    for (auto k : cuts)
        t += " " + std::to_string(k);
    c.log("unzip of ", show(m), " by", t);
    Serie s = build(c, m);
    auto w = slices(m, cuts);
    auto r = df::utils::unzip(s, cuts);
    CHECK(r.size() == cuts.size(), "unzip gave ", r.size(), " Series instead of ", cuts.size());
    for (size_t k = 0; k < r.size(); ++k)
        expectSame(r[k], w[k], "unzip", WITH_DIM);
    expectSame(df::utils::zipVector(r), m, "zipVector of unzip", WITH_DIM);
    if (r.size() == 2)
        expectSame(df::utils::zip(r[0], r[1]), m, "zip of unzip", WITH_DIM);
    else if (r.size() == 3)
        expectSame(df::utils::zip(r[0], r[1], r[2]), m, "zip of unzip", WITH_DIM);
    expectSame(s, m, "the unzipped Serie", WITH_DIM);
    c.nontrivial(m.n >= 2 && cuts.size() >= 2);
}

LAW(regroup, 3, "zip is associative, and unzip by coarser sizes then finer ones is unzip by the finer ones") {
    Group g = genGroup(c, 3);
    c.log("zip of\n", g.text());
    M w = zipped(g);
    expectSame(df::utils::zip(df::utils::zip(g[0], g[1]), g[2]), w, "zip(zip(a, b), c)", WITH_DIM);
    expectSame(df::utils::zip(g[0], df::utils::zip(g[1], g[2])), w, "zip(a, zip(b, c))", WITH_DIM);
    auto sz = sizes(g);
    auto two = df::utils::unzip(direct(w), {sz[0] + sz[1], sz[2]});
    CHECK(two.size() == 2, "unzip gave ", two.size(), " Series instead of 2");
    expectSame(two[1], g.ms[2], "unzip, second part");
    auto fine = df::utils::unzip(two[0], {sz[0], sz[1]});
    expectSame(fine[0], g.ms[0], "unzip of unzip, first part");
    expectSame(fine[1], g.ms[1], "unzip of unzip, second part");
    c.nontrivial(w.n >= 2);
}

PBT_MAIN("C07",
         "A case zips one to six generated Series of equal count (one object sometimes given twice) or unzips a "
         "generated Serie by a random composition of its item size. Non-trivial: at least two items and two Series.",
         49000, 500000)
