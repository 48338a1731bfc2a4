// C06: pipelines and adaptors equal direct application.
#include "model.hpp"
#include "all.hpp"
#include <memory>

namespace {
using ::show;
// A pure stage, implemented without the library's operations.
struct Stage {
    int kind = 0;
    uint32_t k = 1;
    int id = 0;
    std::shared_ptr<std::vector<int>> trace;
    M model(const M &m) const {
        M r = m;
        switch (kind) {
        case 0: // affine, with the index
            for (size_t i = 0; i < r.v.size(); ++i)
                r.v[i] = r.v[i] * 3 + k + double(i % 7);
            break;
        case 1: // reversed items
            for (uint32_t i = 0; i < m.n; ++i)
                for (uint32_t j = 0; j < m.isz; ++j)
                    r.v[size_t(i) * m.isz + j] = m.at(m.n - 1 - i, j);
            break;
        case 2: // drops the first k items
            r.n = m.n > k ? m.n - k : 0;
            r.v.assign(m.v.end() - size_t(r.n) * m.isz, m.v.end());
            break;
        case 3: // one component more
            r = M::empty(m.isz + 1, m.dim);
            for (uint32_t i = 0; i < m.n; ++i) {
                Array a = m.item(i);
                a.push_back(i + k);
                r.push(a);
            }
            break;
        case 4: // repeats every item
            r = M::empty(m.isz, m.dim);
            for (uint32_t i = 0; i < m.n; ++i) {
                r.push(m.item(i));
                if (i % 2 == k % 2)
                    r.push(m.item(i));
            }
            break;
        case 5: // squares modulo
            for (auto &x : r.v)
                x = std::fmod(x * x + k, 97);
            break;
        case 6: // keeps one component
            r = M::empty(1, m.dim);
            for (uint32_t i = 0; i < m.n; ++i)
                r.push({m.at(i, k % m.isz)});
            break;
        case 7: // prefix sums
            for (size_t i = 1; i < r.v.size(); ++i)
                r.v[i] = std::fmod(r.v[i] + 2 * r.v[i - 1], 1009);
            break;
        }
        return r;
    }
    Serie operator()(const Serie &s) const {
        if (trace)
            trace->push_back(id);
        return direct(model(modelOf(s)));
    }
};
struct Sum { // last stage giving a number
    double operator()(const Serie &s) const {
        double d = s.count();
        for (double v : s.asArray())
            d = std::fmod(d * 5 + v, 65537);
        return d;
    }
};
struct Pipeline {
    std::vector<Stage> st;
    M in, out;
    Serie s;
    std::shared_ptr<std::vector<int>> trace;
    void expectTrace(const std::vector<int> &order, const std::string &what) {
        CHECK(*trace == order, what, ": the stages were not each applied once in the right order");
        trace->clear();
    }
};
Pipeline gen(Ctx &c, int lo, int hi) {
    Pipeline p;
    int n = (int)c.range(lo, hi);
    p.trace = std::make_shared<std::vector<int>>();
    p.in = genM(c, {.prof = EXACT, .maxCount = 300, .maxIsz = 6});
    p.s = build(c, p.in);
    p.out = p.in;
    std::string names;
    for (int i = 0; i < n; ++i) {
        Stage s;
        s.kind = (int)c.below(8);
        s.k = (uint32_t)c.below(5);
        s.id = i;
        s.trace = p.trace;
        p.out = s.model(p.out);
        p.st.push_back(s);
        names += " " + std::to_string(s.kind) + "/" + std::to_string(s.k);
    }
    c.log(show(p.in), " stages (kind/param):", names);
    c.nontrivial(n >= 2 && p.in.n >= 1);
    return p;
}
std::vector<int> upto(int n) {
    std::vector<int> v;
    for (int i = 0; i < n; ++i)
        v.push_back(i);
    return v;
}
// Applies a variadic f to the stages 0..n-1 as separate arguments
template <class F> auto spread(std::vector<Stage> &t, F f) {
    switch (t.size()) {
    case 1:
        return f(t[0]);
    case 2:
        return f(t[0], t[1]);
    case 3:
        return f(t[0], t[1], t[2]);
    case 4:
        return f(t[0], t[1], t[2], t[3]);
    case 5:
        return f(t[0], t[1], t[2], t[3], t[4]);
    default:
        return f(t[0], t[1], t[2], t[3], t[4], t[5]);
    }
}
bool same(const Serie &a, const Serie &b) {
    return a.itemSize() == b.itemSize() && a.count() == b.count() && a.dimension() == b.dimension() &&
           sameBits(a.asArray(), b.asArray());
}
bool same(double a, double b) { return sameBits(a, b); }
bool same(bool a, bool b) { return a == b; }
bool same(const df::FindResult<double> &a, const df::FindResult<double> &b) {
    return a.found == b.found && a.index == b.index && sameBits(a.value, b.value);
}
bool same(const df::FindResult<Array> &a, const df::FindResult<Array> &b) {
    return a.found == b.found && a.index == b.index && sameBits(a.value, b.value);
}
// mk builds the adaptor from arguments that are gone when it returns; ref is the direct call
template <class Mk, class Ref>
void adaptor(Ctx &c, const char *name, Mk mk, Ref ref, const Serie &x, const Serie &y) {
    c.label(name);
    c.log(name, " on ", show(modelOf(x)), " and ", show(modelOf(y)));
    auto op = mk();
    std::vector<Array> junk(8, Array(16, 3.0)); // reuses freed memory
    auto wx = ref(x), wy = ref(y);
    M mx = modelOf(x), my = modelOf(y);
    CHECK(same(op(x), wx), name, ": the first use differs from the direct call");
    CHECK(same(op(y), wy), name, ": the second use, on another Serie, differs from the direct call");
    auto copy = op;
    CHECK(same(op(x), wx), name, ": the third use differs from the direct call");
    CHECK(same(copy(y), wy), name, ": a copy of the operation differs from the direct call");
    CHECK(same(df::pipe(x, op), wx), name, ": piping through the operation differs from the direct call");
    expectSame(x, mx, std::string("the Serie given to ") + name);
    expectSame(y, my, std::string("the Serie given to ") + name);
}
} // namespace

LAW(pipe_form, 5, "pipe, make_pipe and the member form give the composition of the stages in order") {
    Pipeline p = gen(c, 1, 6);
    int n = (int)p.st.size(), form = (int)c.below(4);
    c.log("form ", form);
    Serie r;
    if (form == 0)
        r = spread(p.st, [&](auto &...f) { return df::pipe(p.s, f...); });
    else if (form == 1)
        r = spread(p.st, [&](auto &...f) { return p.s.pipe(f...); });
    else if (form == 2)
        r = spread(p.st, [&](auto &...f) { return df::pipe(p.s, Stage(f)...); });
    else {
        std::vector<Stage> *tmp = new std::vector<Stage>(p.st);
        M m2 = M::make(2, {5, 6, 7, 8, 9, 10});
        M w2 = m2;
        for (auto &f : p.st)
            w2 = f.model(w2);
        spread(*tmp, [&](auto &...f) {
            auto pl = df::make_pipe(f...);
            delete tmp;
            tmp = nullptr;
            r = pl(p.s);
            p.expectTrace(upto(n), "pipeline, first use");
            expectSame(pl(direct(m2)), w2, "pipeline, second use");
            p.trace->clear();
            r = pl(p.s);
            return 0;
        });
    }
    p.expectTrace(upto(n), "pipeline");
    expectSame(r, p.out, "pipeline");
    expectSame(p.s, p.in, "the piped Serie");
}

LAW(number_end, 2, "pipelines and compositions ending with a number") {
    Pipeline p = gen(c, 1, 5);
    double w = Sum()(direct(p.out));
    CHECK(sameBits(spread(p.st, [&](auto &...f) { return df::pipe(p.s, f..., Sum()); }), w), "pipe to a number");
    CHECK(sameBits(spread(p.st, [&](auto &...f) { return df::make_pipe(f..., Sum())(p.s); }), w),
          "make_pipe to a number");
    CHECK(sameBits(spread(p.st, [&](auto &...f) { return p.s.pipe(f..., Sum()); }), w), "Serie::pipe to a number");
    CHECK(sameBits(df::utils::compose(Sum(), df::make_pipe(p.st[0]))(p.s), Sum()(p.st[0](p.s))), "compose to a number");
}

LAW(nesting, 3, "nested pipelines and compositions change nothing") {
    Pipeline p = gen(c, 3, 6);
    int n = (int)p.st.size();
    auto &t = p.st;
    int cut = (int)c.range(1, n - 1);
    std::vector<Stage> a(t.begin(), t.begin() + cut), b(t.begin() + cut, t.end());
    Serie mid = spread(a, [&](auto &...f) { return df::pipe(p.s, f...); });
    Serie r = spread(b, [&](auto &...f) { return df::pipe(mid, f...); });
    p.expectTrace(upto(n), "pipe of a pipe");
    expectSame(r, p.out, "pipe of a pipe");
    Serie q = spread(a, [&](auto &...f) {
        auto first = df::make_pipe(f...);
        return spread(b, [&](auto &...g) {
            auto second = df::make_pipe(g...);
            auto both = df::make_pipe(first, second);
            Serie once = both(p.s);
            p.expectTrace(upto(n), "make_pipe of pipelines");
            expectSame(df::utils::compose(second, first)(p.s), p.out, "composition of two pipelines");
            p.trace->clear();
            return once;
        });
    });
    expectSame(q, p.out, "make_pipe of pipelines");
    c.log("cut at ", cut);
}

LAW(composition, 4, "compose applies its functions from the last to the first, nested or not") {
    Pipeline p = gen(c, 2, 6);
    int n = (int)p.st.size();
    std::vector<Stage> rev(p.st.rbegin(), p.st.rend());
    std::vector<int> order = upto(n);
    auto two = [&](auto &&f) { // the same composition object used twice
        Serie r = f(p.s);
        p.expectTrace(order, "compose");
        expectSame(r, p.out, "compose");
        expectSame(f(p.s), p.out, "compose, second use");
        p.trace->clear();
    };
    namespace u = df::utils;
    auto &t = rev;
    bool rvalue = c.flip();
    c.log("rvalue functions ", rvalue);
#define SEND(x) (rvalue ? Stage(x) : x)
    switch (n) {
    case 2:
        if (rvalue)
            two(u::compose(Stage(t[0]), Stage(t[1])));
        else
            two(u::compose(t[0], t[1]));
        break;
    case 3:
        if (rvalue)
            two(u::compose(Stage(t[0]), Stage(t[1]), Stage(t[2])));
        else
            two(u::compose(t[0], t[1], t[2]));
        two(u::compose(u::compose(t[0], t[1]), t[2]));
        two(u::compose(t[0], u::compose(t[1], t[2])));
        break;
    case 4:
        two(u::compose(t[0], t[1], t[2], t[3]));
        two(u::compose(u::compose(t[0], t[1]), u::compose(t[2], t[3])));
        two(u::compose(t[0], u::compose(t[1], t[2]), t[3]));
        break;
    case 5:
        two(u::compose(t[0], t[1], t[2], t[3], t[4]));
        two(u::compose(u::compose(t[0], t[1], t[2]), t[3], t[4]));
        break;
    default:
        two(u::compose(t[0], t[1], t[2], t[3], t[4], t[5]));
        two(u::compose(t[0], t[1], u::compose(t[2], t[3], t[4]), t[5]));
    }
    // the innermost function may take several arguments
    Stage outer = t[0];
    auto inner = [](const Serie &a, const Serie &b) {
        Array v = a.asArray();
        for (double d : b.asArray())
            v.push_back(d * 2 + 1);
        return Serie(1, v, a.dimension());
    };
    Serie other = direct(M::make(1, {4, 5, 6}));
    expectSame(u::compose(outer, inner)(p.s, other), outer.model(modelOf(inner(p.s, other))),
               "compose with two arguments");
    // the functions are copied
    auto f = std::make_unique<Stage>(t[n - 2]);
    auto g = std::make_unique<Stage>(t[n - 1]);
    auto fg = u::compose(*f, *g);
    f.reset();
    g.reset();
    expectSame(fg(p.s), t[n - 2].model(t[n - 1].model(p.in)), "compose of functions that are gone");
}

LAW(adaptors_callback, 4, "make_map, make_apply, make_filter, make_reject, make_reduce, makeFind, makeFindAll, ...") {
    M m = genM(c, {.prof = FINITE, .minCount = 1, .maxCount = 300, .maxIsz = 9});
    M m2 = genM(c, {.prof = FINITE, .minCount = 1, .maxCount = 40, .isz = m.isz});
    Serie x = build(c, m), y = build(c, m2);
    Pred p = genPred(c, m);
    uint64_t seed = c.below(1 << 16);
    Array shift = genValues(c, 40, EXACT);
    auto H = [](auto v) { return std::make_unique<decltype(v)>(v); };
    switch (c.below(11)) {
    case 0: {
        auto f = [shift](const Array &a, uint32_t i) {
            Array r = a;
            for (size_t j = 0; j < r.size(); ++j)
                r[j] = r[j] * 2 + shift[(i + j) % shift.size()];
            return r;
        };
        adaptor(c, "make_map", [&] { auto h = H(f); return df::make_map(*h); },
                [&](const Serie &s) { return df::map(f, s); }, x, y);
        break;
    }
    case 1: {
        auto f = [shift](const Array &a, uint32_t i) -> double { return a[0] * 2 + shift[i % shift.size()]; };
        adaptor(c, "make_apply", [&] { auto h = H(f); return df::utils::make_apply(*h); },
                [&](const Serie &s) { return df::utils::apply(f, s); }, x, y);
        break;
    }
    case 2: {
        auto f = [p](const Array &a, uint32_t i) -> bool { return p(a, i); };
        adaptor(c, "make_filter", [&] { auto h = H(f); return df::make_filter(*h); },
                [&](const Serie &s) { return df::filter(f, s); }, x, y);
        break;
    }
    case 3: {
        auto f = [p](const Array &a, uint32_t i) -> bool { return p(a, i); };
        adaptor(c, "make_reject", [&] { auto h = H(f); return df::utils::make_reject(*h); },
                [&](const Serie &s) { return df::utils::reject(f, s); }, x, y);
        break;
    }
    case 4: {
        auto f = [p](const Array &a, uint32_t i) -> bool { return p(a, i); };
        adaptor(c, "make_cut", [&] { auto h = H(f); return df::utils::make_cut(*h); },
                [&](const Serie &s) { return df::utils::cut(f, s); }, x, y);
        break;
    }
    case 5: {
        auto f = [seed](const Array &acc, const Array &a, uint32_t i) -> Array {
            return Array{double(hashItem(seed, Array{acc[0], a.back()}, i) >> 12), acc[0]};
        };
        Array init{1, 2};
        adaptor(c, "make_reduce", [&] { auto h = H(f); auto k = H(init); return df::make_reduce(*h, *k); },
                [&](const Serie &s) { return df::reduce(f, s, init); }, x, y);
        break;
    }
    case 6: {
        M a = genM(c, {.prof = FINITE, .maxCount = 300, .isz = 1});
        Serie s1 = direct(a);
        auto f = [seed](double acc, double v, uint32_t i) -> double {
            return double(hashItem(seed, Array{acc, v}, i) >> 12);
        };
        double init = shift[0];
        adaptor(c, "make_reduce (number)", [&] { auto h = H(f); auto k = H(init); return df::make_reduce(*h, *k); },
                [&](const Serie &s) { return df::reduce(f, s, init); }, s1, direct(M::make(1, {3, 4, 5})));
        break;
    }
    case 7: {
        auto f = [p](const Array &a, uint32_t i) -> bool { return p(a, i); };
        adaptor(c, "makeFindAll", [&] { auto h = H(f); return df::makeFindAll(*h); },
                [&](const Serie &s) { return df::findAll(f, s); }, x, y);
        break;
    }
    case 8: {
        if (m.isz == 1) {
            auto f = [p](double a, uint32_t i) -> bool { return p(a, i); };
            adaptor(c, "makeFind (number)", [&] { auto h = H(f); return df::makeFind(*h); },
                    [&](const Serie &s) { return df::find(f, s); }, x, y);
        } else {
            auto f = [p](const Array &a, uint32_t i) -> bool { return p(a, i); };
            adaptor(c, "makeFind", [&] { auto h = H(f); return df::makeFind(*h); },
                    [&](const Serie &s) { return df::find(f, s); }, x, y);
        }
        break;
    }
    case 9: {
        auto f = [p](const Array &a, uint32_t i) -> bool { return p(a, i); };
        adaptor(c, "make_check", [&] { auto h = H(f); return df::cond::make_check(*h); },
                [&](const Serie &s) { return df::cond::check(s, f); }, x, y);
        break;
    }
    default: {
        auto f = [](const Array &a, const Array &b) -> bool { return b < a; };
        adaptor(c, "make_sort", [&] { auto h = H(f); return df::utils::make_sort(*h); },
                [&](const Serie &s) { return df::utils::sort(s, f); }, x, y);
        // forEach through its adaptor
        std::vector<double> seen;
        auto g = [&seen](const auto &v, uint32_t i) {
            if constexpr (std::is_same_v<std::decay_t<decltype(v)>, Array>)
                seen.push_back(v[0] + i);
            else
                seen.push_back(v + i);
        };
        df::make_forEach(g)(x);
        std::vector<double> first = seen;
        seen.clear();
        df::forEach(g, x);
        CHECK(sameBits(seen, first), "make_forEach differs from forEach");
    }
    }
    c.nontrivial();
}

LAW(adaptors_value, 4, "adaptors holding a number, an array or a Serie") {
    M m = genM(c, {.prof = FINITE, .minCount = 1, .maxCount = 300, .maxIsz = 9});
    M other = genLike(c, m, FINITE, m.isz), m2 = genLike(c, m, FINITE, m.isz);
    M one = genLike(c, m, FINITE, 1), one2 = genLike(c, m, FINITE, 1);
    Serie x = build(c, m), y = direct(m2), o = direct(other);
    Serie n1 = direct(one), n2 = direct(one2);
    M v3 = genLike(c, m, FINITE, 3), w3 = genLike(c, m, FINITE, 3), u3 = genLike(c, m, FINITE, 3);
    double d = genValues(c, 1, FINITE)[0];
    Array arr = genValues(c, m.isz, FINITE);
    auto H = [](auto v) { return std::make_unique<decltype(v)>(v); };
    namespace a = df::algebra;
    namespace ma = df::math;
    namespace st = df::stats;
    switch (c.below(22)) {
    case 0:
        adaptor(c, "make_scale (number)", [&] { auto h = H(d); return ma::make_scale(*h); },
                [&](const Serie &s) { return ma::scale(s, d); }, x, y);
        break;
    case 1:
        adaptor(c, "make_scale (array)", [&] { auto h = H(arr); return ma::make_scale(*h); },
                [&](const Serie &s) { return ma::scale(s, arr); }, x, y);
        break;
    case 2:
        adaptor(c, "make_div (number)", [&] { auto h = H(d); return ma::make_div(*h); },
                [&](const Serie &s) { return ma::div(d, s); }, x, y);
        break;
    case 3:
        adaptor(c, "make_div (Serie)", [&] { auto h = H(n1); return ma::make_div(*h); },
                [&](const Serie &s) { return ma::div(n1, s); }, x, y);
        break;
    case 4:
        adaptor(c, "make_add", [&] { auto h = H(o); return ma::make_add(*h); },
                [&](const Serie &s) { return ma::add(o, s); }, x, y);
        break;
    case 5:
        adaptor(c, "make_sub", [&] { auto h = H(o); return ma::make_sub(*h); },
                [&](const Serie &s) { return ma::sub(o, s); }, x, y);
        break;
    case 6:
        adaptor(c, "make_mult", [&] { auto h = H(o); return ma::make_mult(*h); },
                [&](const Serie &s) { return ma::mult(o, s); }, x, y);
        break;
    case 7:
        adaptor(c, "make_dot (Serie)", [&] { auto h = H(o); return a::make_dot(*h); },
                [&](const Serie &s) { return a::dot(o, s); }, x, y);
        break;
    case 8:
        adaptor(c, "make_dot (array)", [&] { auto h = H(arr); return a::make_dot(*h); },
                [&](const Serie &s) { return a::dot(s, arr); }, x, y);
        break;
    case 9:
        adaptor(c, "make_cross", [&] { auto h = H(direct(v3)); return a::make_cross(*h); },
                [&](const Serie &s) { return a::cross(direct(v3), s); }, direct(w3), direct(u3));
        break;
    case 10:
        adaptor(c, "make_equals", [&] { auto h = H(x); return ma::make_equals(*h); },
                [&](const Serie &s) { return ma::equals(x, s); }, direct(m), y);
        break;
    case 11:
        adaptor(c, "make_approximatelyEquals", [&] { auto h = H(x); return ma::make_approximatelyEquals(*h); },
                [&](const Serie &s) { return ma::approximatelyEquals(x, s); }, direct(m), y);
        break;
    case 12:
        adaptor(c, "make_covariance", [&] { auto h = H(n1); return st::make_covariance(*h); },
                [&](const Serie &s) { return st::covariance(n1, s); }, n1, n2);
        break;
    case 13:
        adaptor(c, "make_zip", [&] { auto h = H(o); return df::utils::make_zip(*h); },
                [&](const Serie &s) { return df::utils::zip(o, s); }, x, n1);
        break;
    case 14:
        adaptor(c, "make_concat", [&] { auto h = H(o); return df::utils::make_concat(*h); },
                [&](const Serie &s) { return df::utils::concat(o, s); }, x, y);
        break;
    case 15: {
        double q = double(c.below(101)) / 100;
        adaptor(c, "make_quantile", [&] { auto h = H(q); return st::make_quantile(*h); },
                [&](const Serie &s) { return st::quantile(s, q); }, n1, n2);
        break;
    }
    case 16: {
        unsigned nb = (unsigned)c.range(1, 9);
        adaptor(c, "make_bins", [&] { auto h = H(nb); return st::make_bins(*h); },
                [&](const Serie &s) { return st::bins(s, nb); }, n1, n2);
        break;
    }
    case 17: {
        double k = double(c.below(40)) / 10;
        adaptor(c, "make_outliers", [&] { auto h = H(k); return st::make_outliers(*h); },
                [&](const Serie &s) { return st::outliers(s, k); }, n1, n2);
        break;
    }
    case 18: {
        double k = double(c.below(40)) / 10;
        adaptor(c, "make_isOutliers", [&] { auto h = H(k); return st::make_isOutliers(*h); },
                [&](const Serie &s) { return st::isOutliers(s, k); }, n1, n2);
        adaptor(c, "make_notOutliers", [&] { auto h = H(k); return st::make_notOutliers(*h); },
                [&](const Serie &s) { return st::notOutliers(s, k); }, n1, n2);
        break;
    }
    case 19: {
        double sp = 1 + double(c.below(50)) / 10;
        adaptor(c, "make_fringes", [&] { auto h = H(sp); return df::geo::make_fringes(*h); },
                [&](const Serie &s) { return df::geo::fringes(s, sp); }, n1, n2);
        break;
    }
    case 20: {
        Array los = genValues(c, 3, FINITE);
        adaptor(c, "make_insar", [&] { auto h = H(los); return df::geo::make_insar(*h); },
                [&](const Serie &s) { return df::geo::insar(s, los); }, direct(v3), direct(w3));
        break;
    }
    default: {
        Array tri;
        for (int k = 0; k < 12; ++k)
            tri.push_back(double(c.below(v3.n)));
        Serie t1(3, tri), t2(3, Array(tri.begin() + 3, tri.end()));
        adaptor(c, "make_normals", [&] { auto h = H(direct(v3)); return df::geo::make_normals(*h); },
                [&](const Serie &s) { return df::geo::normals(direct(v3), s); }, t1, t2);
        adaptor(c, "make_areas", [&] { auto h = H(direct(v3)); return df::geo::make_areas(*h); },
                [&](const Serie &s) { return df::geo::areas(direct(v3), s); }, t1, t2);
    }
    }
    c.nontrivial();
}

PBT_MAIN("C06",
         "A case is a sequence of 1-6 generated non-commuting stages applied to a generated Serie in every form, or an "
         "adaptor used several times on two Series after its arguments are gone. Non-trivial: at least two stages and "
         "one item; adaptors always.",
         194000, 1552000)
