// C04: selection operations keep exactly the right items, in order.
#include "model.hpp"
#include <dataframe/utils/utils.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/macros.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/functional/utils/reject.h>

namespace {
using ::show;
struct Split {
    std::vector<uint32_t> yes, no;
};
Split splitBy(const M &m, const Pred &p) {
    Split s;
    for (uint32_t i = 0; i < m.n; ++i)
        (p(m.item(i), i) ? s.yes : s.no).push_back(i);
    return s;
}
struct Rec { // arguments a predicate was called with
    std::vector<std::pair<Array, uint32_t>> calls;
    void expectEach(const M &m, const std::string &what) const {
        CHECK(calls.size() == m.n, what, ": the predicate was called ", calls.size(), " times for ", m.n, " items");
        for (uint32_t i = 0; i < m.n; ++i)
            CHECK(calls[i].second == i && sameBits(calls[i].first, m.item(i)), what, ": call ", i,
                  " of the predicate got index ", calls[i].second, " and item ", show(calls[i].first));
    }
};
struct One {
    M m;
    Serie s;
    Pred p;
    Split w;
};
One setup(Ctx &c, bool scalar) {
    M m = genM(c, {.prof = ANY, .isz = scalar ? 1u : 0u});
    Serie s = build(c, m);
    Pred p = genPred(c, m);
    Split w = splitBy(m, p);
    c.log(show(m), " ", show(p), ": ", w.yes.size(), " items satisfy it");
    c.nontrivial(m.n >= 2 && !w.yes.empty());
    if (w.no.empty() || w.yes.empty())
        c.label("all or none");
    return {m, s, p, w};
}
template <class T> Array arr(const T &v) {
    if constexpr (std::is_same_v<T, double>)
        return {v};
    else
        return v;
}
// One Serie, predicate on items of type T
template <class T, class A> void selectOne(Ctx &c, const One &o) {
    int op = (int)c.below(8);
    static const char *names[] = {"filter",  "Serie::filter", "cut",         "findAll",
                                  "reject",  "make_filter",   "make_reject", "makeFindAll"};
    std::string what = names[op];
    c.label(names[op]);
    c.log("  ", what);
    Rec rec;
    auto pred = [&](A v, uint32_t i) -> bool {
        rec.calls.push_back({arr<T>(v), i});
        return o.p(v, i);
    };
    Serie r;
    bool rej = false;
    switch (op) {
    case 0:
        r = df::filter(pred, o.s);
        break;
    case 1:
        r = o.s.filter(pred);
        break;
    case 2:
        r = df::utils::cut(pred, o.s);
        break;
    case 3:
        r = df::findAll(pred, o.s);
        break;
    case 4:
        r = df::utils::reject(pred, o.s);
        rej = true;
        break;
    case 5:
        r = df::make_filter(pred)(o.s);
        break;
    case 6:
        r = df::utils::make_reject(pred)(o.s);
        rej = true;
        break;
    case 7:
        r = df::makeFindAll(pred)(o.s);
        break;
    }
    rec.expectEach(o.m, what);
    expectSame(r, o.m.select(rej ? o.w.no : o.w.yes), what);
    expectSame(o.s, o.m, "the Serie given to " + what);
}
template <class T, class A> void otherOne(Ctx &c, const One &o) {
    Rec rec;
    auto pred = [&](A v, uint32_t i) -> bool {
        rec.calls.push_back({arr<T>(v), i});
        return o.p(v, i);
    };
    switch (c.below(4)) {
    case 0: { // partition
        auto [y, n] = df::utils::partition(pred, o.s);
        rec.expectEach(o.m, "partition");
        expectSame(y, o.m.select(o.w.yes), "partition, first part");
        expectSame(n, o.m.select(o.w.no), "partition, second part");
        c.label("partition");
        break;
    }
    case 1: { // check
        Serie r = c.flip() ? df::cond::check(o.s, pred) : df::cond::make_check(pred)(o.s);
        rec.expectEach(o.m, "check");
        M w = M::empty(1, o.m.dim);
        for (uint32_t i = 0; i < o.m.n; ++i)
            w.push({0.0});
        for (auto i : o.w.yes)
            w.v[i] = 1;
        expectSame(r, w, "check");
        c.label("check");
        break;
    }
    case 2: { // find; predicates on arrays are for item sizes greater than 1
        if (!std::is_same_v<T, double> && o.m.isz == 1)
            throw pbt::Discard{};
        auto r = c.flip() ? df::find(pred, o.s) : df::makeFind(pred)(o.s);
        bool found = !o.w.yes.empty();
        CHECK(r.found == found && bool(r) == found, "find: found is ", r.found, ", expected ", found);
        if (found) {
            uint32_t k = o.w.yes[0];
            CHECK(r.index == k, "find: index is ", r.index, ", expected ", k);
            CHECK(sameBits(arr<T>(r.value), o.m.item(k)), "find: value is ", show(arr<T>(r.value)), ", expected ",
                  show(o.m.item(k)));
        }
        size_t calls = found ? o.w.yes[0] + 1 : o.m.n;
        CHECK(rec.calls.size() >= calls, "find looked at ", rec.calls.size(), " items only");
        for (size_t i = 0; i < rec.calls.size(); ++i)
            CHECK(rec.calls[i].second == i && sameBits(rec.calls[i].first, o.m.item(i)),
                  "find: the predicate got index ", rec.calls[i].second, " and item ", show(rec.calls[i].first),
                  " at call ", i);
        c.label("find");
        break;
    }
    default: { // filter and reject are complementary, partition agrees with both
        auto keep = df::filter(pred, o.s);
        auto drop = df::utils::reject(pred, o.s);
        auto part = df::utils::partition(pred, o.s);
        expectSame(keep, modelOf(std::get<0>(part)), "filter compared with partition");
        expectSame(drop, modelOf(std::get<1>(part)), "reject compared with partition");
        CHECK(keep.count() + drop.count() == o.m.n, "filter and reject do not add up");
        expectSame(keep, o.m.select(o.w.yes), "filter");
        c.label("complement");
    }
    }
    expectSame(o.s, o.m, "the Serie given to the operation");
}
} // namespace

LAW(numbers, 4, "filter, cut, findAll, reject on numbers") { selectOne<double, double>(c, setup(c, true)); }
LAW(items, 5, "filter, cut, findAll, reject on items of any size") { selectOne<Array, const Array &>(c, setup(c, false)); }
LAW(numbers_other, 4, "partition, check, find on numbers") { otherOne<double, double>(c, setup(c, true)); }
LAW(items_other, 5, "partition, check, find on items of any size") {
    otherOne<Array, const Array &>(c, setup(c, false));
}

LAW(six, 1, "filter, filterAll, reject, rejectAll on 6 Series") {
    std::vector<M> ms{genM(c, {.prof = ANY, .maxCount = 300, .maxIsz = 9})};
    while (ms.size() < 6)
        ms.push_back(genLike(c, ms[0], ANY, (uint32_t)c.range(1, c.chance(1, 8) ? 40 : 5)));
    std::vector<Serie> s;
    for (auto &m : ms) {
        s.push_back(build(c, m));
        c.log("  ", show(m));
    }
    using A = const Array &;
    Pred p = genPred(c, ms[0]);
    p.mode = 0;
    int op = (int)c.below(4);
    static const char *names[] = {"filter", "filterAll", "reject", "rejectAll"};
    c.log(names[op], " ", show(p));
    auto joined = [](std::initializer_list<Array> l) {
        Array a;
        for (auto &x : l)
            a.insert(a.end(), x.begin(), x.end());
        return a;
    };
    auto with = [&](A u, A v, A w, A x, A y, A z, uint32_t i) -> bool { return p(joined({u, v, w, x, y, z}), i); };
    auto all = [&](A u, A v, A w, A x, A y, A z) -> bool { return p(joined({u, v, w, x, y, z}), 0); };
    Series r;
    auto put = [&](auto t) { std::apply([&](auto &...x) { (r.push_back(x), ...); }, t); };
    switch (op) {
    case 0: put(df::filter(with, s[0], s[1], s[2], s[3], s[4], s[5])); break;
    case 1: r = df::filterAll(all, s[0], s[1], s[2], s[3], s[4], s[5]); break;
    case 2: put(df::utils::reject(with, s[0], s[1], s[2], s[3], s[4], s[5])); break;
    default: r = df::utils::rejectAll(all, s[0], s[1], s[2], s[3], s[4], s[5]);
    }
    CHECK(r.size() == 6, names[op], " returned ", r.size(), " Series");
    std::vector<M> w;
    for (auto &m : ms)
        w.push_back(M::empty(m.isz, m.dim));
    for (uint32_t i = 0; i < ms[0].n; ++i)
        if (p(joined({ms[0].item(i), ms[1].item(i), ms[2].item(i), ms[3].item(i), ms[4].item(i), ms[5].item(i)}), op % 2 ? 0 : i) != (op >= 2))
            for (int k = 0; k < 6; ++k)
                w[k].push(ms[k].item(i));
    for (int k = 0; k < 6; ++k) {
        expectSameOrNone(r[k], w[k], std::string(names[op]) + " of six, Serie " + std::to_string(k));
        expectSame(s[k], ms[k], "a Serie given");
    }
    c.nontrivial(w[0].n && w[0].n < ms[0].n);
}

LAW(several, 6, "filter, filterAll, reject, rejectAll on 2 to 4 Series") {
    int k = (int)c.range(2, 4);
    std::vector<M> ms{genM(c, {.prof = ANY, .maxIsz = 9})};
    while ((int)ms.size() < k)
        ms.push_back(genLike(c, ms[0], ANY, (uint32_t)c.range(1, c.chance(1, 8) ? 40 : 5)));
    std::vector<Serie> s;
    for (auto &m : ms)
        s.push_back(build(c, m));
    Pred p = genPred(c, ms[0]);
    if (ms[0].n > 300 && c.chance(1, 3)) { // items far apart
        p.mode = 0;
        p.per = (uint32_t)c.range(50, 400);
    }
    int op = (int)c.below(4);
    bool rej = op >= 2, noIndex = op % 2; // the ...All forms have no index
    static const char *names[] = {"filter", "filterAll", "reject", "rejectAll"};
    if (noIndex && (p.mode == 3 || p.mode == 4 || p.mode == 6 || p.mode == 7 || p.mode == 9))
        p.mode = 0;
    c.log(names[op], " ", k, " Series ", show(p));
    for (auto &m : ms)
        c.log("  ", show(m));
    c.label(names[op]);
    auto joined = [&](uint32_t i) {
        Array a;
        for (auto &m : ms) {
            Array x = m.item(i);
            a.insert(a.end(), x.begin(), x.end());
        }
        return a;
    };
    std::vector<uint32_t> keep;
    for (uint32_t i = 0; i < ms[0].n; ++i)
        if (p(joined(i), noIndex ? 0 : i) != rej)
            keep.push_back(i);
    std::vector<Array> seen;
    std::vector<uint32_t> idx;
    auto P = [&](std::initializer_list<Array> l, uint32_t i) -> bool {
        Array a;
        for (auto &x : l)
            a.insert(a.end(), x.begin(), x.end());
        seen.push_back(a);
        idx.push_back(i);
        return p(a, i);
    };
    auto p2 = [&](const Array &a, const Array &b, uint32_t i) -> bool { return P({a, b}, i); };
    auto p3 = [&](const Array &a, const Array &b, const Array &d, uint32_t i) -> bool { return P({a, b, d}, i); };
    auto p4 = [&](const Array &a, const Array &b, const Array &d, const Array &e, uint32_t i) -> bool {
        return P({a, b, d, e}, i);
    };
    auto q2 = [&](const Array &a, const Array &b) -> bool { return P({a, b}, 0); };
    auto q3 = [&](const Array &a, const Array &b, const Array &d) -> bool { return P({a, b, d}, 0); };
    auto q4 = [&](const Array &a, const Array &b, const Array &d, const Array &e) -> bool { return P({a, b, d, e}, 0); };
    Series r;
    auto put = [&](auto t) { std::apply([&](auto &...x) { (r.push_back(x), ...); }, t); };
    if (op == 0) {
        if (k == 2)
            put(df::filter(p2, s[0], s[1]));
        else if (k == 3)
            put(df::filter(p3, s[0], s[1], s[2]));
        else
            put(df::filter(p4, s[0], s[1], s[2], s[3]));
    } else if (op == 1) {
        if (k == 2)
            r = df::filterAll(q2, s[0], s[1]);
        else if (k == 3)
            r = df::filterAll(q3, s[0], s[1], s[2]);
        else
            r = df::filterAll(q4, s[0], s[1], s[2], s[3]);
    } else if (op == 2) {
        if (k == 2 && c.flip())
            put(df::utils::make_reject(p2)(s[0], s[1]));
        else if (k == 2)
            put(df::utils::reject(p2, s[0], s[1]));
        else if (k == 3)
            put(df::utils::reject(p3, s[0], s[1], s[2]));
        else
            put(df::utils::reject(p4, s[0], s[1], s[2], s[3]));
    } else {
        if (k == 2)
            r = df::utils::rejectAll(q2, s[0], s[1]);
        else if (k == 3)
            r = df::utils::rejectAll(q3, s[0], s[1], s[2]);
        else
            r = df::utils::rejectAll(q4, s[0], s[1], s[2], s[3]);
    }
    CHECK(seen.size() == ms[0].n, names[op], ": the predicate was called ", seen.size(), " times for ", ms[0].n,
          " items");
    for (uint32_t i = 0; i < ms[0].n; ++i)
        CHECK(sameBits(seen[i], joined(i)) && (noIndex || idx[i] == i), names[op], ": call ", i,
              " of the predicate got index ", idx[i], " and items ", show(seen[i]), ", expected ", show(joined(i)));
    CHECK((int)r.size() == k, names[op], " returned ", r.size(), " Series for ", k);
    for (int q = 0; q < k; ++q) {
        expectSame(r[q], ms[q].select(keep), std::string(names[op]) + ", Serie " + std::to_string(q));
        expectSame(s[q], ms[q], "a Serie given to the operation");
    }
    c.nontrivial(!keep.empty() && keep.size() < ms[0].n);
}

LAW(lists, 1, "contains is true of the elements of a list only") {
    static const Strings n{"", "a", "A", "ab", "a ", "b", "S1", "S11", "positions"};
    Strings l;
    for (int k = (int)c.below(7); k > 0; --k)
        l.push_back(c.pick(n));
    Array v = genValues(c, c.below(6), INTS);
    std::string q = c.pick(n);
    double x = !v.empty() && c.flip() ? v[c.below(v.size())] : double(c.range(-9, 9));
    c.log("contains of ", l.size(), " names and \"", q, "\", of ", show(v), " and ", x);
    bool in = false, inv = false;
    for (auto &s : l)
        in = in || s == q;
    for (double d : v)
        inv = inv || d == x;
    CHECK(df::contains(l, q) == in, "contains(list, \"", q, "\") is ", !in);
    CHECK(df::contains(v, x) == inv, "contains(array, ", x, ") is ", !inv);
    c.nontrivial(l.size() + v.size() >= 2);
}

PBT_MAIN("C04",
         "A case applies a generated predicate (random function of item and index, or structured: all, none, one "
         "index, all but one, threshold, stride, suffix) to one to four generated Series. Non-trivial: at least two "
         "items and at least one satisfies the predicate; for several Series some but not all are kept.",
         76000, 800000)
