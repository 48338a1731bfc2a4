// C09: sort returns an ordered permutation of the items.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
uint64_t itemKey(const Array &a) {
    uint64_t h = 7 + a.size();
    for (double d : a)
        h = pbt::mix64(h ^ std::bit_cast<uint64_t>(d));
    return h;
}
// Same multiset of items, bit for bit.
void permutation(const Serie &r, const M &m, const std::string &what) {
    expectShape(r, m.isz, m.n, what);
    M g = modelOf(r);
    std::map<uint64_t, int> cnt;
    for (uint32_t i = 0; i < m.n; ++i)
        ++cnt[itemKey(m.item(i))];
    for (uint32_t i = 0; i < m.n; ++i)
        CHECK(--cnt[itemKey(g.item(i))] >= 0, what, ": item ", i, " ", show(g.item(i)),
              " is not an item of the input, or was duplicated");
}
template <class Less> void ordered(const Serie &r, Less less, const std::string &what) {
    M g = modelOf(r);
    for (uint32_t i = 1; i < g.n; ++i)
        CHECK(!less(g.item(i), g.item(i - 1)), what, ": item ", i, " ", show(g.item(i)),
              " comes after a greater one ", show(g.item(i - 1)));
}
// A strict weak order on items.
struct Less {
    int mode = 0;
    uint32_t k = 0;
    uint64_t seed = 0;
    double key(const Array &a) const {
        switch (mode) {
        case 0:
        case 1:
            return a[k];
        case 2:
            return std::accumulate(a.begin(), a.end(), 0.0);
        case 3:
            return std::fabs(a[k]);
        case 4:
            return double(hashItem(seed, a, 0) % 5);
        case 5:
            return std::inner_product(a.begin(), a.end(), a.begin(), 0.0);
        case 6:
            return 0; // all equivalent
        }
        return double(hashItem(seed, a, 1) % 100003);
    }
    bool operator()(const Array &a, const Array &b) const { return mode == 1 ? key(b) < key(a) : key(a) < key(b); }
};
Less genLess(Ctx &c, uint32_t isz) {
    Less l;
    l.mode = (int)c.weighted({4, 4, 2, 2, 2, 1, 1, 2});
    l.k = (uint32_t)c.below(isz);
    l.seed = c.below(1 << 16);
    return l;
}
constexpr unsigned NONAN = FINITE | WIDE;
// More duplicated items and prefixes than independent draws give
M genItems(Ctx &c, uint32_t isz, unsigned prof) {
    bool huge = c.chance(1, 500);
    M m = genM(c, {.prof = prof, .maxCount = 5000, .isz = huge && !isz ? (uint32_t)c.range(1, 2) : isz, .maxIsz = 9});
    if (huge) { // more items than 16 bits can number
        uint32_t n = (uint32_t)c.range(65530, 66200);
        Array more = genValues(c, (n - m.n) * m.isz, prof);
        m.v.insert(m.v.end(), more.begin(), more.end());
        m.n = n;
        c.label("more than 65529 items");
    }
    if (m.n >= 2 && c.chance(1, 2)) {
        uint32_t times = (uint32_t)c.range(1, std::min(6u, m.n));
        for (uint32_t t = 0; t < times; ++t) {
            uint32_t a = (uint32_t)c.below(m.n), b = (uint32_t)c.below(m.n), k = (uint32_t)c.range(0, m.isz);
            for (uint32_t j = 0; j < k; ++j)
                m.v[size_t(a) * m.isz + j] = m.at(b, j);
        }
    }
    return m;
}
} // namespace

LAW(natural, 6, "without comparator: increasing, lexicographic for vectors") {
    bool scalar = c.flip();
    M m = genItems(c, scalar ? 1 : 0, NONAN);
    if (m.n && c.chance(1, 6))
        m.v[c.below(m.v.size())] = c.flip() ? INFINITY : -INFINITY;
    c.log("sort of ", show(m));
    Serie s = build(c, m);
    Serie r = df::utils::sort(s);
    permutation(r, m, "sort");
    ordered(r, [](const Array &a, const Array &b) { return a < b; }, "sort");
    expectSame(s, m, "the sorted Serie");
    Serie r2 = df::utils::sort(r);
    permutation(r2, m, "sort of a sorted Serie");
    ordered(r2, [](const Array &a, const Array &b) { return a < b; }, "sort of a sorted Serie");
    c.nontrivial(m.n >= 2 && r.asArray() != m.v);
}

LAW(comparator, 8, "any comparator, vector or scalar items") {
    bool scalar = c.chance(1, 3), nums = scalar && c.flip();
    M m = genItems(c, scalar ? 1 : 0, FINITE);
    Less l = genLess(c, m.isz);
    int entry = (int)c.below(2);
    c.log("sort of ", show(m), " comparator mode ", l.mode, " component ", l.k, nums ? " generic" : "");
    Serie s = build(c, m);
    uint64_t calls = 0;
    Serie r;
    auto one = [&](const Array &a, const Array &b) {
        ++calls;
        CHECK(a.size() == m.isz && b.size() == m.isz, "the comparator got items of ", a.size(), " and ", b.size(),
              " values instead of ", m.isz);
        return l(a, b);
    };
    if (nums) { // a comparator accepting anything (it may be given numbers for a scalar Serie)
        auto cmp = [&](const auto &a, const auto &b) {
            if constexpr (std::is_same_v<std::decay_t<decltype(a)>, Array>)
                return one(a, b);
            else
                return one(Array{double(a)}, Array{double(b)});
        };
        r = entry ? df::utils::sort(s, cmp) : df::utils::make_sort(cmp)(s);
    } else {
        r = entry ? df::utils::sort(s, one) : df::utils::make_sort(one)(s);
    }
    permutation(r, m, "sort with a comparator");
    ordered(r, l, "sort with a comparator");
    expectSame(s, m, "the sorted Serie");
    if (m.n >= 2)
        CHECK(calls > 0, "sort never called its comparator");
    c.nontrivial(m.n >= 2 && r.asArray() != m.v);
}

LAW(reversal, 3, "the opposite comparator gives the reversed sequence of keys; sorting ignores the initial order") {
    M m = genItems(c, 0, FINITE);
    uint32_t k = (uint32_t)c.below(m.isz);
    c.log("sort of ", show(m), " by component ", k);
    auto up = [k](const Array &a, const Array &b) { return a[k] < b[k]; };
    auto down = [k](const Array &a, const Array &b) { return b[k] < a[k]; };
    Serie s = build(c, m);
    Serie a = df::utils::sort(s, up), b = df::utils::sort(s, down);
    permutation(a, m, "increasing sort");
    permutation(b, m, "decreasing sort");
    for (uint32_t i = 0; i < m.n; ++i)
        CHECK(a.value(i)[k] == b.value(m.n - 1 - i)[k], "item ", i, " of the increasing sort has key ", a.value(i)[k],
              ", its counterpart in the decreasing one ", b.value(m.n - 1 - i)[k]);
    // a shuffled input sorts to the same sequence
    std::vector<uint32_t> idx(m.n);
    std::iota(idx.begin(), idx.end(), 0u);
    Src src = source(c, m.n);
    for (uint32_t i = m.n; i > 1; --i)
        std::swap(idx[i - 1], idx[src.below(i)]);
    M sh = m.select(idx);
    M n1 = modelOf(df::utils::sort(s)), n2 = modelOf(df::utils::sort(direct(sh)));
    CHECK(n1.v == n2.v, "sorting a shuffled Serie gives another sequence");
    c.nontrivial(m.n >= 2);
}

PBT_MAIN("C09",
         "A case sorts generated items (with forced duplicates and common prefixes) with the default order or a "
         "generated strict weak order. Non-trivial: at least two items, not already in order.",
         30000, 600000)
