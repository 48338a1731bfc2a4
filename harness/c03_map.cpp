// C03: map, apply and if_then_else transform item by item.
#include "model.hpp"
#include <dataframe/utils/utils.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/conditional/if.h>

namespace {
using ::show;
// The mapped function: any value may depend on the item, the index and the component.
struct Fn {
    uint64_t seed = 0;
    int mode = 0;
    uint32_t len = 1;
    double one(const Array &a, uint32_t i, uint32_t j) const {
        switch (mode) {
        case 0:
            return a.empty() ? 0 : a[(j + i) % a.size()];
        case 1:
            return double(int64_t(hashItem(seed + j, a, i) % 2001) - 1000) / 8;
        case 2:
            return double(i) * 16 + j;
        case 3:
            return (a.empty() ? 0 : a[j % a.size()] * 2) + i;
        default:
            return a.empty() ? 0 : a[a.size() - 1 - j % a.size()];
        }
    }
    Array all(const Array &a, uint32_t i) const {
        Array r(len);
        for (uint32_t j = 0; j < len; ++j)
            r[j] = one(a, i, j);
        return r;
    }
};
Fn genFn(Ctx &c) {
    Fn f;
    f.mode = (int)c.below(5);
    f.seed = c.below(1 << 16);
    f.len = (uint32_t)c.range(1, 7);
    if (c.chance(1, 20))
        f.len = (uint32_t)c.range(8, 40);
    return f;
}
std::string show(const Fn &f) {
    return "function(mode " + std::to_string(f.mode) + ", seed " + std::to_string(f.seed) + ", " +
           std::to_string(f.len) + " values)";
}
struct Call {
    Array item;
    uint32_t i;
};
void expectCalls(const std::vector<Call> &calls, const std::vector<M> &in, const std::string &what) {
    uint32_t n = in[0].n;
    CHECK(calls.size() == n, what, ": the function was called ", calls.size(), " times for ", n, " items");
    for (uint32_t i = 0; i < n; ++i) {
        CHECK(calls[i].i == i, what, ": call ", i, " got index ", calls[i].i);
        Array w;
        for (auto &m : in) {
            Array x = m.item(i);
            w.insert(w.end(), x.begin(), x.end());
        }
        CHECK(sameBits(calls[i].item, w), what, ": call ", i, " got item ", show(calls[i].item), ", expected ", show(w));
    }
}
Array cat(std::initializer_list<Array> l) {
    Array r;
    for (auto &a : l)
        r.insert(r.end(), a.begin(), a.end());
    return r;
}
// Calls cb through one of the entry points
template <class F> Serie call1(int entry, F &cb, const Serie &s) {
    switch (entry) {
    case 0:
        return df::map(cb, s);
    case 1:
        return s.map(cb);
    case 2:
        return df::utils::apply(cb, s);
    case 3: {
        auto op = df::make_map([&](auto &&...a) -> decltype(cb(std::forward<decltype(a)>(a)...)) {
            return cb(std::forward<decltype(a)>(a)...);
        });
        return op(s);
    }
    case 4: {
        auto op = df::utils::make_apply([&](auto &&...a) -> decltype(cb(std::forward<decltype(a)>(a)...)) {
            return cb(std::forward<decltype(a)>(a)...);
        });
        return op(s);
    }
    default:
        return df::map(std::move(cb), s);
    }
}
const char *const ENTRY[] = {"map", "Serie::map", "apply", "make_map", "make_apply", "map of a temporary"};
double freeFn(double v, uint32_t i) { return v * 3 + i; }
M expected1(const M &m, const Fn &f, bool array) {
    M w = M::empty(array ? f.len : 1, m.dim);
    for (uint32_t i = 0; i < m.n; ++i)
        w.push(array ? f.all(m.item(i), i) : Array{f.one(m.item(i), i, 0)});
    return w;
}
} // namespace

LAW(scalar_in, 5, "functions of a number and an index, giving a number (double, int, bool, float) or an array") {
    M m = genM(c, {.prof = ANY, .isz = 1});
    Serie s = build(c, m);
    Fn f = genFn(c);
    int kind = (int)c.below(6), entry = (int)c.below(6);
    c.log(show(m), " kind ", kind, " via ", ENTRY[entry], ", ", show(f));
    std::vector<Call> calls;
    std::string what = ENTRY[entry];
    M w = M::empty(1, m.dim);
    Serie r;
    switch (kind) {
    case 0: {
        auto cb = [&](double v, uint32_t i) {
            calls.push_back({{v}, i});
            return f.one({v}, i, 0);
        };
        r = call1(entry, cb, s);
        w = expected1(m, f, false);
        expectCalls(calls, {m}, what);
        expectSame(r, w, what);
        break;
    }
    case 1: {
        auto cb = [&](double v, uint32_t i) {
            calls.push_back({{v}, i});
            return f.all({v}, i);
        };
        r = call1(entry, cb, s);
        w = expected1(m, f, true);
        expectCalls(calls, {m}, what);
        expectSameOrNone(r, w, what);
        break;
    }
    case 2: {
        auto cb = [&](double v, uint32_t i) -> int {
            calls.push_back({{v}, i});
            return int(hashItem(f.seed, v, i) % 2000) - 1000;
        };
        r = call1(entry, cb, s);
        for (uint32_t i = 0; i < m.n; ++i)
            w.push({double(int(hashItem(f.seed, m.v[i], i) % 2000) - 1000)});
        expectCalls(calls, {m}, what);
        expectSame(r, w, what);
        break;
    }
    case 3: {
        auto cb = [&](double v, uint32_t i) -> bool {
            calls.push_back({{v}, i});
            return hashItem(f.seed, v, i) % 2;
        };
        r = call1(entry, cb, s);
        for (uint32_t i = 0; i < m.n; ++i)
            w.push({double(hashItem(f.seed, m.v[i], i) % 2)});
        expectCalls(calls, {m}, what);
        expectSame(r, w, what);
        break;
    }
    case 4: {
        auto cb = [&](double v, uint32_t i) -> float {
            calls.push_back({{v}, i});
            return float(i) / 3.f;
        };
        r = call1(entry, cb, s);
        for (uint32_t i = 0; i < m.n; ++i)
            w.push({double(float(i) / 3.f)});
        expectCalls(calls, {m}, what);
        expectSame(r, w, what);
        break;
    }
    default: {
        r = entry % 2 ? df::map(freeFn, s) : s.map(freeFn);
        for (uint32_t i = 0; i < m.n; ++i)
            w.push({freeFn(m.v[i], i)});
        expectSame(r, w, "map of a free function");
    }
    }
    expectSame(s, m, "the mapped Serie after " + what);
    c.nontrivial(m.n >= 2);
}

LAW(array_in, 5, "functions of an item and an index, giving a number or an array, for any item size") {
    M m = genM(c, {.prof = ANY});
    Serie s = build(c, m);
    Fn f = genFn(c);
    bool arr = c.flip();
    int entry = (int)c.below(6);
    c.log(show(m), arr ? " to array" : " to number", " via ", ENTRY[entry], ", ", show(f));
    std::vector<Call> calls;
    Serie r;
    if (arr) {
        auto cb = [&](const Array &v, uint32_t i) {
            calls.push_back({v, i});
            return f.all(v, i);
        };
        r = call1(entry, cb, s);
    } else {
        auto cb = [&](const Array &v, uint32_t i) -> double {
            calls.push_back({v, i});
            return f.one(v, i, 0);
        };
        r = call1(entry, cb, s);
    }
    M w = expected1(m, f, arr);
    expectCalls(calls, {m}, ENTRY[entry]);
    if (arr)
        expectSameOrNone(r, w, ENTRY[entry]);
    else
        expectSame(r, w, ENTRY[entry]);
    expectSame(s, m, "the mapped Serie");
    c.nontrivial(m.n >= 2);
}

LAW(several, 5, "functions of the items of 2, 3 or 4 Series of equal count") {
    int k = (int)c.range(2, 4);
    std::vector<M> ms{genM(c, {.prof = ANY, .maxIsz = 9})};
    while ((int)ms.size() < k)
        ms.push_back(c.chance(1, 6) ? ms[0] : genLike(c, ms[0], ANY, (uint32_t)c.range(1, 5)));
    std::vector<Serie> s;
    for (auto &m : ms)
        s.push_back(build(c, m));
    Fn f = genFn(c);
    int kind = (int)c.below(3);
    bool viaApply = c.chance(1, 3), alias = c.chance(1, 8);
    if (alias)
        ms[1] = ms[0];
    const Serie &s1 = alias ? s[0] : s[1]; // the same object given twice
    c.log(k, " Series, kind ", kind, viaApply ? " via apply " : " ", show(f));
    for (auto &m : ms)
        c.log("  ", show(m));
    std::vector<Call> calls;
    Serie r;
    auto run = [&](auto res) {
        if (k == 2) {
            auto cb = [&](const Array &a, const Array &b, uint32_t i) {
                calls.push_back({cat({a, b}), i});
                return res(cat({a, b}), i);
            };
            r = viaApply ? df::utils::apply(cb, s[0], s1) : df::map(cb, s[0], s1);
        } else if (k == 3) {
            auto cb = [&](const Array &a, const Array &b, const Array &d, uint32_t i) {
                calls.push_back({cat({a, b, d}), i});
                return res(cat({a, b, d}), i);
            };
            r = viaApply ? df::utils::apply(cb, s[0], s1, s[2]) : df::map(cb, s[0], s1, s[2]);
        } else {
            auto cb = [&](const Array &a, const Array &b, const Array &d, const Array &e, uint32_t i) {
                calls.push_back({cat({a, b, d, e}), i});
                return res(cat({a, b, d, e}), i);
            };
            r = viaApply ? df::utils::apply(cb, s[0], s1, s[2], s[3]) : df::map(cb, s[0], s1, s[2], s[3]);
        }
    };
    M w = M::empty(kind == 1 ? f.len : 1, ms[0].dim);
    auto ival = [&](const Array &a, uint32_t i) { return int(hashItem(f.seed, a, i) % 2000) - 1000; };
    if (kind == 0)
        run([&](const Array &a, uint32_t i) { return f.one(a, i, 0); });
    else if (kind == 1)
        run([&](const Array &a, uint32_t i) { return f.all(a, i); });
    else
        run(ival);
    for (uint32_t i = 0; i < ms[0].n; ++i) {
        Array a;
        for (auto &m : ms) {
            Array x = m.item(i);
            a.insert(a.end(), x.begin(), x.end());
        }
        w.push(kind == 1 ? f.all(a, i) : kind == 0 ? Array{f.one(a, i, 0)} : Array{double(ival(a, i))});
    }
    expectCalls(calls, ms, "map of several Series");
    expectSameOrNone(r, w, "map of several Series");
    for (int q = 0; q < k; ++q)
        if (!(alias && q == 1))
            expectSame(s[q], ms[q], "a mapped Serie");
    c.nontrivial(ms[0].n >= 2);
}

LAW(six, 1, "functions of the items of 6 Series") {
    std::vector<M> ms{genM(c, {.prof = ANY, .maxCount = 300, .maxIsz = 9})};
    while (ms.size() < 6)
        ms.push_back(genLike(c, ms[0], ANY, (uint32_t)c.range(1, c.chance(1, 8) ? 40 : 5)));
    std::vector<Serie> s;
    for (auto &m : ms) {
        s.push_back(build(c, m));
        c.log("  ", show(m));
    }
    using A = const Array &;
    Fn f = genFn(c);
    bool items = c.flip(), viaApply = c.chance(1, 3);
    c.log(items ? "to items " : "to numbers ", viaApply ? " via apply " : " ", show(f));
    std::vector<Call> calls;
    auto toItem = [&](A u, A v, A w, A x, A y, A z, uint32_t i) {
        calls.push_back({cat({u, v, w, x, y, z}), i});
        return f.all(calls.back().item, i);
    };
    auto toNumber = [&](A u, A v, A w, A x, A y, A z, uint32_t i) {
        calls.push_back({cat({u, v, w, x, y, z}), i});
        return f.one(calls.back().item, i, 0);
    };
    Serie r = items ? viaApply ? df::utils::apply(toItem, s[0], s[1], s[2], s[3], s[4], s[5]) : df::map(toItem, s[0], s[1], s[2], s[3], s[4], s[5])
              : viaApply ? df::utils::apply(toNumber, s[0], s[1], s[2], s[3], s[4], s[5])
                         : df::map(toNumber, s[0], s[1], s[2], s[3], s[4], s[5]);
    M w = M::empty(items ? f.len : 1, ms[0].dim);
    for (uint32_t i = 0; i < ms[0].n; ++i) {
        Array a = cat({ms[0].item(i), ms[1].item(i), ms[2].item(i), ms[3].item(i), ms[4].item(i), ms[5].item(i)});
        w.push(items ? f.all(a, i) : Array{f.one(a, i, 0)});
    }
    expectCalls(calls, ms, "map of six Series");
    expectSameOrNone(r, w, "map of six Series");
    for (int q = 0; q < 6; ++q)
        expectSame(s[q], ms[q], "a mapped Serie");
    c.nontrivial(ms[0].n >= 2);
}

LAW(inconsistent, 3, "array results whose length differs at one index are refused") {
    int kind = (int)c.below(3);
    M m = genM(c, {.prof = EXACT, .minCount = 2, .isz = kind == 0 ? 1u : 0u, .maxIsz = 9});
    M m2 = genLike(c, m, EXACT, (uint32_t)c.range(1, 4));
    Serie s = build(c, m), s2 = build(c, m2);
    uint32_t len = (uint32_t)c.range(1, 5), k = (uint32_t)c.range(0, m.n - 1);
    if (c.chance(1, 3))
        k = m.n - 1;
    uint32_t other = c.flip() ? len + (uint32_t)c.range(1, 3) : (uint32_t)c.below(len);
    int entry = (int)c.below(6);
    c.log(show(m), " length ", len, " but ", other, " at ", k, " kind ", kind);
    // another one may be wrong as well, and make up for it: the total is what it should be
    uint32_t k2 = k;
    if (c.chance(1, 3)) {
        k2 = (uint32_t)c.below(m.n);
        other = std::min(other, 2 * len);
        c.label("compensated");
    }
    auto gen = [&](uint32_t i) { return Array(i == k ? other : i == k2 ? 2 * len - other : len, 1.0); };
    bool ok = throws([&] {
        if (kind == 0) {
            auto cb = [&](double, uint32_t i) { return gen(i); };
            call1(entry, cb, s);
        } else if (kind == 1) {
            auto cb = [&](const Array &, uint32_t i) { return gen(i); };
            call1(entry, cb, s);
        } else
            df::map([&](const Array &, const Array &, uint32_t i) { return gen(i); }, s, s2);
    });
    CHECK(ok, "results of ", len, " values, but ", other, " at index ", k, ", were not refused");
    expectSame(s, m, "the mapped Serie");
    c.nontrivial();
}

LAW(if_then_else, 4, "every item gets the result of the branch its condition selects") {
    bool scalar = c.flip(), arr = c.flip();
    M m = genM(c, {.prof = ANY, .isz = scalar ? 1u : 0u});
    Serie s = build(c, m);
    Fn f = genFn(c), g = genFn(c);
    g.len = f.len;
    Pred p = genPred(c, m);
    if (p.mode == 3 || p.mode == 4 || p.mode == 6 || p.mode == 7 || p.mode == 9)
        p.mode = 5; // the condition sees the item only
    c.log(show(m), scalar ? " numbers" : " items", arr ? " to arrays, " : " to numbers, ", show(p), " ", show(f), " ",
          show(g));
    uint32_t yes = 0;
    std::vector<std::pair<uint32_t, bool>> seen;
    Serie r;
    auto t1 = [&](const auto &v, uint32_t i, const Serie &q, bool which) {
        CHECK(&q == &s || sameBits(q.asArray(), m.v), "the branch is not given the Serie");
        seen.push_back({i, which});
        Array a;
        if constexpr (std::is_same_v<std::decay_t<decltype(v)>, double>)
            a = {v};
        else
            a = v;
        CHECK(sameBits(a, m.item(i)), "the branch got another item at index ", i);
        return a;
    };
    if (scalar) {
        auto check = [&](double v) { return p(v, 0); };
        if (arr)
            r = df::cond::if_then_else(
                s, check, [&](double v, uint32_t i, const Serie &q) { return f.all(t1(v, i, q, true), i); },
                [&](double v, uint32_t i, const Serie &q) { return g.all(t1(v, i, q, false), i); });
        else
            r = df::cond::if_then_else(
                s, check, [&](double v, uint32_t i, const Serie &q) { return f.one(t1(v, i, q, true), i, 0); },
                [&](double v, uint32_t i, const Serie &q) { return g.one(t1(v, i, q, false), i, 0); });
    } else {
        auto check = [&](const Array &v) { return p(v, 0); };
        if (arr)
            r = df::cond::if_then_else(
                s, check, [&](const Array &v, uint32_t i, const Serie &q) { return f.all(t1(v, i, q, true), i); },
                [&](const Array &v, uint32_t i, const Serie &q) { return g.all(t1(v, i, q, false), i); });
        else
            r = df::cond::if_then_else(
                s, check, [&](const Array &v, uint32_t i, const Serie &q) { return f.one(t1(v, i, q, true), i, 0); },
                [&](const Array &v, uint32_t i, const Serie &q) { return g.one(t1(v, i, q, false), i, 0); });
    }
    M w = M::empty(arr ? f.len : 1, m.dim);
    for (uint32_t i = 0; i < m.n; ++i) {
        bool y = p(m.item(i), 0);
        yes += y;
        const Fn &h = y ? f : g;
        w.push(arr ? h.all(m.item(i), i) : Array{h.one(m.item(i), i, 0)});
    }
    expectSameOrNone(r, w, "if_then_else");
    CHECK(seen.size() == m.n, "if_then_else called its branches ", seen.size(), " times for ", m.n, " items");
    expectSame(s, m, "the Serie given to if_then_else");
    c.nontrivial(yes > 0 && yes < m.n);
}

LAW(lists, 1, "map of a list calls the function once per element, in order") {
    Array v = genValues(c, genCount(c, 0, 300), ANY), w, seen;
    c.log("map of the list ", show(v));
    uint64_t seed = c.below(1 << 16);
    for (size_t i = 0; i < v.size(); ++i)
        w.push_back(hashItem(seed, {v[i]}, (uint32_t)i) % 1000 / 8.0);
    const Array in = v;
    Array r = df::map<double>(in, [&](double x) {
              seen.push_back(x);
              return hashItem(seed, {x}, (uint32_t)seen.size() - 1) % 1000 / 8.0;
          });
    CHECK(sameBits(seen, v), "map of a list saw ", show(seen));
    CHECK(sameBits(r, w), "map of a list gave ", show(r), " instead of ", show(w));
    CHECK(sameBits(in, v), "map of a list changed it");
    c.nontrivial(v.size() >= 2);
}

PBT_MAIN("C03",
         "A case maps a generated function (of the item, the index and the component) over one to four generated "
         "Series through one of the entry points. Non-trivial: at least two items; for if_then_else both branches "
         "taken; for refusals always.",
         40000, 600000)
