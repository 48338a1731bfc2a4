// C05: forEach and reduce visit every item once, in order.
#include "model.hpp"
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/reduce.h>

namespace {
using ::show;
struct Call {
    Array v;
    uint32_t i;
    bool number;
};
void expectCalls(const std::vector<Call> &calls, const std::vector<const M *> &in, int number, const std::string &what) {
    uint32_t n = in[0]->n;
    CHECK(calls.size() == n, what, ": ", calls.size(), " calls for ", n, " items");
    for (uint32_t i = 0; i < n; ++i) {
        Array w;
        for (auto m : in) {
            Array x = m->item(i);
            w.insert(w.end(), x.begin(), x.end());
        }
        CHECK(calls[i].i == i, what, ": call ", i, " got index ", calls[i].i);
        CHECK(sameBits(calls[i].v, w), what, ": call ", i, " got ", show(calls[i].v), ", expected ", show(w));
        CHECK(number < 0 || calls[i].number == (number == 1), what, ": call ", i, " got ",
              calls[i].number ? "a number" : "an array");
    }
}
} // namespace

LAW(for_each, 6, "forEach on one Serie: numbers, arrays and generic callbacks") {
    int kind = (int)c.below(3);
    M m = genM(c, {.prof = ANY, .isz = kind == 0 ? 1u : 0u});
    if (kind == 1 && m.isz == 1) { // array callbacks are for item sizes greater than 1
        m.isz = 2;
        m.v.resize(size_t(m.n) * 2, 0.5);
    }
    Serie s = build(c, m);
    int entry = (int)c.below(3);
    c.log(show(m), " callback kind ", kind, " entry ", entry);
    std::vector<Call> calls;
    auto run = [&](auto &cb) {
        if (entry == 0)
            df::forEach(cb, s);
        else if (entry == 1)
            s.forEach(cb);
        else
            df::make_forEach(cb)(s);
    };
    if (kind == 0) {
        auto cb = [&](double v, uint32_t i) { calls.push_back({{v}, i, true}); };
        run(cb);
        expectCalls(calls, {&m}, 1, "forEach of numbers");
    } else if (kind == 1) {
        auto cb = [&](const Array &v, uint32_t i) { calls.push_back({v, i, false}); };
        run(cb);
        expectCalls(calls, {&m}, 0, "forEach of arrays");
    } else {
        auto cb = [&](const auto &v, uint32_t i) {
            if constexpr (std::is_same_v<std::decay_t<decltype(v)>, Array>)
                calls.push_back({v, i, false});
            else
                calls.push_back({{double(v)}, i, true});
        };
        run(cb);
        expectCalls(calls, {&m}, m.isz == 1 ? 1 : 0, "forEach of anything");
    }
    expectSame(s, m, "the Serie given to forEach");
    c.nontrivial(m.n >= 2);
}

LAW(for_each_several, 4, "forEach on 2 to 4 Series") {
    int k = (int)c.range(2, 4);
    std::vector<M> ms{genM(c, {.prof = ANY, .maxIsz = 9})};
    while ((int)ms.size() < k)
        ms.push_back(genLike(c, ms[0], ANY, (uint32_t)c.range(1, 5)));
    std::vector<Serie> s;
    for (auto &m : ms)
        s.push_back(build(c, m));
    std::vector<const M *> in;
    for (auto &m : ms) {
        in.push_back(&m);
        c.log(show(m));
    }
    std::vector<Call> calls;
    auto add = [&](std::initializer_list<Array> l, uint32_t i) {
        Array a;
        for (auto &x : l)
            a.insert(a.end(), x.begin(), x.end());
        calls.push_back({a, i, false});
    };
    if (k == 2)
        df::forEach([&](const Array &a, const Array &b, uint32_t i) { add({a, b}, i); }, s[0], s[1]);
    else if (k == 3)
        df::forEach([&](const Array &a, const Array &b, const Array &d, uint32_t i) { add({a, b, d}, i); }, s[0], s[1],
                    s[2]);
    else
        df::forEach([&](const Array &a, const Array &b, const Array &d, const Array &e,
                        uint32_t i) { add({a, b, d, e}, i); },
                    s[0], s[1], s[2], s[3]);
    expectCalls(calls, in, -1, "forEach of several Series");
    for (int q = 0; q < k; ++q)
        expectSame(s[q], ms[q], "a Serie given to forEach");
    c.nontrivial(ms[0].n >= 2);
}

LAW(for_each_six, 1, "forEach on 6 Series") {
    std::vector<M> ms{genM(c, {.prof = ANY, .maxCount = 300, .maxIsz = 9})};
    while (ms.size() < 6)
        ms.push_back(genLike(c, ms[0], ANY, (uint32_t)c.range(1, c.chance(1, 8) ? 40 : 5)));
    std::vector<Serie> s;
    for (auto &m : ms) {
        s.push_back(build(c, m));
        c.log("  ", show(m));
    }
    using A = const Array &;
    std::vector<const M *> in;
    for (auto &m : ms)
        in.push_back(&m);
    std::vector<Call> calls;
    df::forEach(
        [&](A u, A v, A w, A x, A y, A z, uint32_t i) {
            Array a;
            for (auto *p : {&u, &v, &w, &x, &y, &z})
                a.insert(a.end(), p->begin(), p->end());
            calls.push_back({a, i, false});
        },
        s[0], s[1], s[2], s[3], s[4], s[5]);
    expectCalls(calls, in, -1, "forEach of six Series");
    for (int q = 0; q < 6; ++q)
        expectSame(s[q], ms[q], "a Serie given to forEach");
    c.nontrivial(ms[0].n >= 2);
}

LAW(reduce_number, 5, "left fold of a non-commutative, index-dependent callback over numbers") {
    M m = genM(c, {.prof = FINITE, .isz = 1});
    Serie s = build(c, m);
    double init = genValues(c, 1, ANY)[0];
    uint64_t seed = c.below(1 << 16);
    int mode = (int)c.below(3), entry = (int)c.below(3);
    c.log(show(m), " init ", num(init), " mode ", mode, " entry ", entry);
    struct F {
        uint64_t seed;
        int mode;
        double operator()(double acc, double v, uint32_t i) const {
            if (mode == 0) // a hash of the whole history
                return double(hashItem(seed, {acc, v}, i) >> 12);
            if (mode == 1)
                return v;
            return std::fmod(acc * 3 + v * (i + 1), 1048576.0);
        }
    } f{seed, mode};
    std::vector<Call> calls;
    auto cb = [&](double acc, double v, uint32_t i) -> double {
        calls.push_back({{acc, v}, i, true});
        return f(acc, v, i);
    };
    double r = entry == 0 ? df::reduce(cb, s, init) : entry == 1 ? s.reduce(cb, init) : df::make_reduce(cb, init)(s);
    double w = init;
    CHECK(calls.size() == m.n, "reduce: ", calls.size(), " calls for ", m.n, " items");
    for (uint32_t i = 0; i < m.n; ++i) {
        CHECK(calls[i].i == i && sameBits(calls[i].v, Array{w, m.v[i]}), "reduce: call ", i, " got index ", calls[i].i,
              " and (accumulator, value) ", show(calls[i].v), ", expected ", show(Array{w, m.v[i]}));
        w = f(w, m.v[i], i);
    }
    CHECK(sameBits(r, w), "reduce gives ", num(r), ", expected ", num(w));
    expectSame(s, m, "the Serie given to reduce");
    c.nontrivial(m.n >= 2);
}

LAW(reduce_array, 5, "left fold over items of any size, with an initial array of any length") {
    M m = genM(c, {.prof = FINITE});
    Serie s = build(c, m);
    // an empty initial value is legal: callbacks such as "append" start from it
    uint32_t len = c.flip() ? m.isz : (uint32_t)c.range(m.n ? 0 : 1, 6);
    Array init = genValues(c, len, ANY);
    uint64_t seed = c.below(1 << 16);
    int entry = (int)c.below(3), mode = len == 0 ? 1 + (int)c.below(2) : (int)c.below(4);
    c.log(show(m), " init ", show(init), " mode ", mode, " entry ", entry);
    auto f = [=](const Array &acc, const Array &v, uint32_t i) {
        if (mode == 1)
            return v;
        Array r(mode == 0 ? acc.size() : mode == 2 ? 1 + i % 3 : std::min<size_t>(acc.size() + 1, 12));
        for (size_t j = 0; j < r.size(); ++j)
            r[j] = double(hashItem(seed + j, {acc.empty() ? 0.5 : acc[j % acc.size()], v[(i + j) % v.size()],
                                              acc.empty() ? 0.5 : acc.back()}, i) >> 12);
        return r;
    };
    Array w = init;
    uint32_t calls = 0;
    bool bad = false;
    auto cb = [&](const Array &acc, const Array &v, uint32_t i) -> Array {
        bad = bad || i != calls || i >= m.n || !sameBits(acc, w) || !sameBits(v, m.item(i));
        ++calls;
        w = f(acc, v, i);
        return w;
    };
    Serie r = entry == 0 ? df::reduce(cb, s, init) : entry == 1 ? s.reduce(cb, init) : df::make_reduce(cb, init)(s);
    CHECK(!bad, "reduce: a call got a wrong accumulator, item or index");
    CHECK(calls == m.n, "reduce: ", calls, " calls for ", m.n, " items");
    w = init;
    for (uint32_t i = 0; i < m.n; ++i)
        w = f(w, m.item(i), i);
    expectSame(r, M::make(w.size(), w), "reduce");
    expectSame(s, m, "the Serie given to reduce");
    c.label(len ? "with an initial value" : "empty initial value");
    c.nontrivial(m.n >= 2);
}

PBT_MAIN("C05",
         "A case runs forEach over one to four generated Series, or reduce with a generated initial value, with "
         "callbacks recording every argument. Non-trivial: at least two items.",
         58000, 800000)
