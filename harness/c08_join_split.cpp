// C08: concat, merge and partition_n keep every item once, in order.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
Group genGroup(Ctx &c, size_t k) { // same item size, any counts
    Group g;
    M a = genM(c, {.prof = ANY, .maxCount = 2100, .maxIsz = 9});
    g.add(c, a);
    while (g.size() < k) {
        M b = genM(c, {.prof = ANY, .maxCount = 2100, .isz = a.isz, .dim = c.flip() ? a.dim : 0u});
        if (c.chance(1, 3)) { // equal counts or neighbours
            b.n = a.n + (uint32_t)c.below(2);
            b.v = genValues(c, size_t(b.n) * b.isz, ANY);
        }
        g.add(c, b);
    }
    return g;
}
M joined(const std::vector<M> &ms) {
    M w = M::empty(ms[0].isz, ms[0].dim);
    for (auto &m : ms) {
        w.v.insert(w.v.end(), m.v.begin(), m.v.end());
        w.n += m.n;
    }
    return w;
}
M interleaved(const std::vector<M> &ms) {
    M w = M::empty(ms[0].isz, ms[0].dim);
    uint32_t mx = 0;
    for (auto &m : ms)
        mx = std::max(mx, m.n);
    for (uint32_t i = 0; i < mx; ++i)
        for (auto &m : ms)
            if (i < m.n)
                w.push(m.item(i));
    return w;
}
bool mixed(const Group &g) { // several counts
    for (auto &m : g.ms)
        if (m.n != g.ms[0].n)
            return true;
    return false;
}
uint32_t genParts(Ctx &c, uint32_t n) {
    switch (c.weighted({8, 2, 2, 2, 1, 1})) {
    case 1:
        return std::max(1u, n);
    case 2:
        return n + 1;
    case 3:
        return std::max(1u, n / 2 + (uint32_t)c.below(2));
    case 4:
        return n + (uint32_t)c.range(2, 20);
    case 5:
        return 1;
    default:
        return (uint32_t)c.range(1, 12);
    }
}
std::vector<M> parts(const M &m, uint32_t n, bool all) {
    std::vector<M> r;
    uint32_t at = 0;
    for (uint32_t k = 0; k < n; ++k) {
        uint32_t size = m.n / n + (k < m.n % n ? 1 : 0);
        if (!all && k > 0 && at >= m.n)
            break;
        M x = M::empty(m.isz, m.dim);
        for (uint32_t i = 0; i < size; ++i)
            x.push(m.item(at + i));
        at += size;
        r.push_back(x);
    }
    return r;
}
} // namespace

LAW(concat, 6, "concat of 1 to 6 Series") {
    Group g = genGroup(c, (size_t)c.range(1, 6));
    c.log("concat of\n", g.text());
    M w = joined(g.ms);
    expectSame(df::utils::concat(g.copies()), w, "concat of a list");
    if (g.size() > 1)
        expectSame(spread(g, [](const auto &...s) { return df::utils::concat(s...); }), w, "concat");
    g.unchanged("a joined Serie");
    c.nontrivial(g.size() >= 2 && w.n >= 2);
}

LAW(merge, 8, "merge in both modes, with two or more Series") {
    Group g = genGroup(c, (size_t)c.range(2, 6));
    bool cat = c.flip();
    c.log(cat ? "concatenation of\n" : "interleaving of\n", g.text());
    M w = cat ? joined(g.ms) : interleaved(g.ms);
    if (g.size() == 2) {
        if (cat)
            expectSame(df::merge(g[0], g[1]), w, "merge");
        expectSame(df::merge(g[0], g[1], cat), w, "merge of two Series");
    }
    expectSame(spread(g, [cat](const auto &...s) { return df::merge(cat, s...); }), w, "merge");
    g.unchanged("a merged Serie");
    c.nontrivial(mixed(g) && w.n >= 2);
}

LAW(many, 1, "concat and merge of many Series") {
    Group g;
    M a = genM(c, {.prof = ANY, .maxCount = 40, .maxIsz = 9});
    size_t n = genMany(c);
    g.add(c, a);
    while (g.size() < n) {
        M b = genM(c, {.prof = ANY, .maxCount = 40, .isz = a.isz, .dim = c.flip() ? a.dim : 0u});
        if (c.flip()) {
            b.n = a.n;
            b.v = genValues(c, size_t(b.n) * b.isz, ANY);
        }
        g.add(c, b);
    }
    auto s = g.copies();
    c.log("of\n", g.text());
    M w = joined(g.ms);
    switch (c.below(4)) {
    case 0:
        expectSame(df::utils::concat(s), w, "concat of a list");
        break;
    case 1:
        expectSame(spreadMany(s, [](const auto &...x) { return df::utils::concat(x...); }), w, "concat");
        break;
    case 2:
        expectSame(spreadMany(s, [](const auto &...x) { return df::merge(true, x...); }), w, "merge, concatenated");
        break;
    default:
        expectSame(spreadMany(s, [](const auto &...x) { return df::merge(false, x...); }), interleaved(g.ms), "merge, interleaved");
    }
    g.unchanged("a joined Serie");
    c.nontrivial(w.n >= 2);
}

LAW(partition_n, 8, "one Serie into n parts, and back") {
    M m = genM(c, {.prof = ANY, .maxIsz = 12});
    uint32_t n = genParts(c, m.n);
    if (c.chance(1, 25)) // many more parts than items
        n = c.pick(std::vector<uint32_t>{0xffffffffu, 0xfffffffeu, 0x80000000u, 0x80000001u, 100000u});
    c.log("partition of ", show(m), " into ", n);
    Serie s = build(c, m);
    auto w = parts(m, n, false);
    auto r = df::utils::partition_n(n, s);
    CHECK(r.size() == w.size(), "partition_n(", n, ") of ", m.n, " items gave ", r.size(), " parts, expected ",
          w.size());
    for (size_t k = 0; k < r.size(); ++k)
        expectSame(r[k], w[k], "part " + std::to_string(k));
    expectSame(df::utils::concat(r), m, "concat of the parts");
    expectSame(s, m, "the partitioned Serie");
    c.nontrivial(m.n >= 2 && n >= 2);
}

LAW(partition_n_several, 5, "several Series into exactly n parts each") {
    size_t k = (size_t)c.range(2, 4);
    Group g;
    M a = genM(c, {.prof = ANY, .maxCount = 2100, .maxIsz = 6});
    g.add(c, a);
    while (g.size() < k)
        g.add(c, genLike(c, a, ANY, (uint32_t)c.range(1, c.chance(1, 6) ? 40 : 5)));
    uint32_t n = genParts(c, a.n);
    c.log("partition into ", n, " of\n", g.text());
    auto r = spread(g, [n](const auto &...s) -> std::vector<df::Series> {
        if constexpr (sizeof...(s) > 1)
            return df::utils::partition_n(n, s...);
        else
            return {};
    });
    CHECK(r.size() == k, "partition_n gave ", r.size(), " lists for ", k, " Series");
    for (size_t q = 0; q < k; ++q) {
        auto w = parts(g.ms[q], n, true);
        CHECK(r[q].size() == n, "partition_n(", n, ") gave ", r[q].size(), " parts for Serie ", q);
        for (uint32_t x = 0; x < n; ++x)
            expectSame(r[q][x], w[x], "Serie " + std::to_string(q) + " part " + std::to_string(x));
        expectSame(df::utils::concat(r[q]), g.ms[q], "concat of the parts");
    }
    g.unchanged("a partitioned Serie");
    c.nontrivial(a.n >= 2 && n >= 2);
}

PBT_MAIN("C08",
         "A case joins one to six generated Series of one item size and any counts (one object sometimes given "
         "twice), or splits generated Series into a number of parts around, below and above their count. "
         "Non-trivial: two Series (of different counts for merge) and two items, or two parts and two items.",
         70000, 800000)
