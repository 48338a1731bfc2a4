// C35: the result does not depend on the kind of callable an operation is given, only on what it computes.
#include "all.hpp"
#include "model.hpp"
#include "pbt.hpp"
#include <atomic>
#include <memory>
#include <dataframe/utils/utils.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>

namespace {
using ::show;
using df::Serie;
namespace u = df::utils;
namespace cnd = df::cond;

// ---- what the functions compute: a hash of everything they are given
uint64_t seed;                 // of the case
std::atomic<uint64_t> calls, sum; // calls made, and what they were given (whatever the order)
uint64_t order;                // the same, in order
std::atomic<bool> quiet;       // the order is not recorded: calls from several threads

uint64_t bitsOf(double d) { return std::bit_cast<uint64_t>(d); }
uint64_t note(uint64_t h) {
    calls.fetch_add(1);
    sum.fetch_add(pbt::mix64(h));
    if (!quiet)
        order = pbt::mix64(order ^ h);
    return h;
}
uint64_t hashOf(const Array &a) {
    uint64_t h = pbt::mix64(seed ^ a.size());
    for (double d : a)
        h = pbt::mix64(h ^ bitsOf(d));
    return h;
}
uint64_t hashOf(double d) { return pbt::mix64(seed ^ bitsOf(d)); }
uint64_t hashOf(uint32_t i) { return pbt::mix64(seed ^ i); }
uint64_t hashOf(const Serie &s) { return pbt::mix64(hashOf(s.asArray()) ^ s.itemSize() ^ (uint64_t)s.dimension() << 32); }
template <class... A> uint64_t hashAll(const A &...a) {
    uint64_t h = 1;
    ((h = pbt::mix64(h ^ hashOf(a))), ...);
    return note(h);
}
double numOf(uint64_t h) { return (double)((int64_t)(h % 4001) - 2000) / 8; }

template <class R> R makeR(uint64_t h) {
    if constexpr (std::is_same_v<R, bool>)
        return h & 1;
    else if constexpr (std::is_same_v<R, Array>) {
        Array r(1 + seed % 4);
        for (size_t k = 0; k < r.size(); ++k)
            r[k] = numOf(pbt::mix64(h + k));
        return r;
    } else if constexpr (std::is_same_v<R, Serie>)
        throw 0;
    else if constexpr (!std::is_void_v<R>)
        return (R)numOf(h);
}
template <class R, class... A> R body(A... a) {
    uint64_t h = hashAll(a...);
    if constexpr (!std::is_void_v<R>)
        return makeR<R>(h);
}
// the functions of Series are those of a pipeline: the same values, scaled
Serie serieBody(const Serie &s) {
    hashAll(s);
    return s.map([](const Array &v, uint32_t) { Array r = v; for (double &x : r) x = x * 2 + (double)(seed % 5); return r; });
}
// the comparators are orders
bool lessBody(const Array &a, const Array &b) { note(0); return seed % 2 ? a < b : b < a; }
bool lessNum(double a, double b) { note(0); return seed % 2 ? a < b : b < a; }

template <class T> using Val = std::remove_cv_t<std::remove_reference_t<T>>;

void scribble(Array &a) { for (double &d : a) d = -4242; a.clear(); }
void scribble(double &d) { d = -4242; }
void scribble(uint32_t &i) { i = 424242; }
void scribble(Serie &s) { s = Serie(2, Array{1, 2, 3, 4}); }

// ---- the kinds of callables
enum : unsigned {
    STATE = 1,   // the object given is called itself: its state is seen by the caller
    MUT = 2,     // the operator may be non-constant
    GEN = 4,     // templates of operators too
    FREECALLS = 16, // the number of calls is not specified
    FIND = 32,      // stops at the first item accepted
    FOLD = 64,      // the first argument is the result of the previous call
    ALL = STATE | MUT | GEN
};
constexpr double INIT = 16777217.25; // initial value of the reductions of numbers
const char *const kinds[] = {"a lambda", "a lambda (lvalue)", "a constant lambda", "a std::function", "a constant std::function",
                             "a temporary std::function", "a function", "a pointer to function", "a pointer to function (noexcept)",
                             "a function object", "a temporary function object", "a noexcept lambda", "a lambda taking values",
                             "a lambda taking constant values", "a lambda that alters its own copies", "an index of type size_t",
                             "an index of type int", "an index taken by reference", "an index of type long long",
                             "a function object with state", "a mutable lambda", "a temporary mutable lambda", "a mutable noexcept lambda",
                             "a lambda with an auto index", "a generic lambda with a trailing pack", "std::ref of a function object"};
constexpr int NK = sizeof kinds / sizeof *kinds;

template <class I, class T> using Idx = std::conditional_t<std::is_same_v<T, uint32_t>, I, T>;
template <class I, class... A> constexpr bool hasIndex = (std::is_same_v<A, uint32_t> || ...);

template <auto B, class R, class... A> struct FObj {
    int pad = 7;
    R operator()(A... a) const {
        CHECK(pad == 7, "a function object was called after its end");
        return B(a...);
    }
};
template <auto B, class R, class... A> struct SObj {
    long n = 0;
    R operator()(A... a) {
        ++n;
        return B(a...);
    }
};

// Calls op with a callable of kind k that computes B; false if the operation does not take this kind.
template <unsigned FLAGS, auto B, class R, class... A, class Op> bool form(R (*)(A...), int k, Op &&op) {
    using L = long;
    switch (k) {
    case 0:
        op([](A... a) -> R { return B(a...); });
        return true;
#ifndef ONLY_LAMBDAS
    case 1: {
        int pad = 7;
        auto f = [pad](A... a) -> R { CHECK(pad == 7, "a lambda was called after its end"); return B(a...); };
        op(f);
        return true;
    }
    case 2: {
        int pad = 7;
        const auto f = [&pad](A... a) -> R { CHECK(pad == 7, "x"); return B(a...); };
        op(f);
        return true;
    }
    case 3: {
        std::function<R(A...)> f = [](A... a) -> R { return B(a...); };
        op(f);
        CHECK((bool)f, "the std::function given was emptied");
        return true;
    }
    case 4: {
        const std::function<R(A...)> f = B;
        op(f);
        return true;
    }
    case 5:
        op(std::function<R(A...)>(B));
        return true;
    case 6:
        op(*B);
        return true;
    case 7: {
        R (*f)(A...) = B;
        op(f);
        CHECK(f == B, "the pointer given was altered");
        return true;
    }
    case 8: {
        R (*const f)(A...) noexcept = [](A... a) noexcept -> R { return B(a...); };
        op(f);
        return true;
    }
    case 9: {
        FObj<B, R, A...> f;
        op(f);
        CHECK(f.pad == 7, "the function object given was altered");
        return true;
    }
    case 10:
        op(FObj<B, R, A...>{});
        return true;
    case 11:
        op([](A... a) noexcept -> R { return B(a...); });
        return true;
    case 12:
        op([](Val<A>... a) { return B(a...); });
        return true;
    case 13:
        op([](const Val<A>... a) { return B(a...); });
        return true;
    case 14:
        op([](Val<A>... a) -> R {
            struct After {
                std::tuple<Val<A> &...> t;
                ~After() { std::apply([](auto &...x) { (scribble(x), ...); }, t); }
            } after{{a...}};
            return B(a...);
        });
        return true;
    case 15:
        if constexpr (hasIndex<int, A...>)
            return op([](Idx<size_t, A>... a) -> R { return B((Val<A>)a...); }), true;
        return false;
    case 16:
        if constexpr (hasIndex<int, A...>)
            return op([](Idx<int, A>... a) -> R { return B((Val<A>)a...); }), true;
        return false;
    case 17:
        if constexpr (hasIndex<int, A...>)
            return op([](Idx<const uint32_t &, A>... a) -> R { return B((Val<A>)a...); }), true;
        return false;
    case 18:
        if constexpr (hasIndex<int, A...>)
            return op([](Idx<long long, A>... a) -> R { return B((Val<A>)a...); }), true;
        return false;
    case 19:
        if constexpr (FLAGS & MUT) {
            SObj<B, R, A...> f;
            op(f);
            if constexpr (FLAGS & STATE)
                CHECK(f.n == (L)calls.load(), "the function object given counted ", f.n, " calls of ", calls.load(), ": a copy was called");
            return true;
        }
        return false;
    case 20:
        if constexpr (FLAGS & MUT) {
            long n = 0;
            long seen = -1;
            auto f = [n, &seen](A... a) mutable -> R { seen = ++n; return B(a...); };
            op(f);
            if constexpr (FLAGS & STATE)
                CHECK(calls == 0 || seen == (L)calls.load(), "a mutable lambda counted ", seen, " calls of ", calls.load());
            return true;
        }
        return false;
    case 21:
        if constexpr (FLAGS & MUT) {
            long n = 0;
            long seen = -1;
            op([n, &seen](A... a) mutable -> R { seen = ++n; return B(a...); });
            if constexpr (FLAGS & STATE)
                CHECK(calls == 0 || seen == (L)calls.load(), "a mutable lambda counted ", seen, " calls of ", calls.load());
            return true;
        }
        return false;
    case 22:
        if constexpr (FLAGS & MUT) {
            int n = 0;
            op([n](A... a) mutable noexcept -> R { ++n; return B(a...); });
            return true;
        }
        return false;
    case 23:
        if constexpr ((FLAGS & GEN) && sizeof...(A) > 1) {
            if constexpr (std::is_same_v<std::tuple_element_t<sizeof...(A) - 1, std::tuple<A...>>, uint32_t>) {
                if constexpr (sizeof...(A) == 2)
                    return op([](std::tuple_element_t<0, std::tuple<A...>> a, auto i) -> R { return B(a, (uint32_t)i); }), true;
            }
        }
        return false;
    case 24:
        if constexpr ((FLAGS & GEN) && sizeof...(A) > 1)
            return op([](std::tuple_element_t<0, std::tuple<A...>> a, auto &&...r) -> R { return B(a, r...); }), true;
        return false;
    case 25:
        if constexpr (FLAGS & GEN) {
            FObj<B, R, A...> f;
            op(std::ref(f));
            return true;
        }
        return false;
#endif
    }
    return false;
}

// Makes the calls that the operation is specified to make: each item once, in order.
template <unsigned FLAGS, auto B, class R, class... A> void specified(R (*)(A...), const M &a, const M &b) {
    using T = std::tuple<A...>;
    auto item = [](const M &m, uint32_t i) { return Array(m.v.begin() + (size_t)i * m.isz, m.v.begin() + (size_t)(i + 1) * m.isz); };
    for (uint32_t i = 0; i < a.n; ++i) {
        if constexpr (std::is_same_v<T, std::tuple<const Array &, uint32_t>>) {
            if constexpr (FLAGS & FIND) {
                if (a.isz == 1 || B(item(a, i), i))
                    return;
            } else
                B(item(a, i), i);
        } else if constexpr (std::is_same_v<T, std::tuple<double, uint32_t>>) {
            if constexpr (FLAGS & FIND) {
                if (B(a.v[i], i))
                    return;
            } else
                B(a.v[i], i);
        } else if constexpr (FLAGS & FOLD) {
            static thread_local R acc;
            if constexpr (std::is_arithmetic_v<R>) {
                acc = B(i ? (double)acc : INIT, a.v[i], i);
            } else {
                acc = B(i ? acc : Array{1, 2}, item(a, i), i);
            }
        } else if constexpr (std::is_same_v<T, std::tuple<const Array &, const Array &, uint32_t>>)
            B(item(a, i), item(b, i), i);
        else if constexpr (std::is_same_v<T, std::tuple<const Array &>>)
            B(item(a, i));
        else if constexpr (std::is_same_v<T, std::tuple<double>>)
            B(a.v[i]);
        else if constexpr (std::is_same_v<T, std::tuple<const Array &, uint32_t, const Serie &>>) {
            if (item(a, i)[0] > 0)
                B(item(a, i), i, direct(a));
        } else if constexpr (std::is_same_v<T, std::tuple<double, uint32_t, const Serie &>>) {
            if (!(a.v[i] > 0))
                B(a.v[i], i, direct(a));
        } else if constexpr (std::is_same_v<T, std::tuple<const Serie &>>) {
            B(direct(a));
            return;
        }
    }
    if constexpr (std::is_same_v<T, std::tuple<const Serie &>>)
        if (!a.n)
            B(direct(a));
}

// ---- results
struct Out {
    std::vector<M> s;
    Array d;
    void operator()(const Serie &x) { s.push_back(modelOf(x)); }
    void operator()(double x) { d.push_back(x); }
    void operator()(const Array &x) { d.push_back((double)x.size()), d.insert(d.end(), x.begin(), x.end()); }
};
bool same(const Out &a, const Out &b) {
    if (a.s.size() != b.s.size() || !sameBits(a.d, b.d))
        return false;
    for (size_t k = 0; k < a.s.size(); ++k)
        if (a.s[k].isz != b.s[k].isz || a.s[k].n != b.s[k].n || a.s[k].dim != b.s[k].dim || !sameBits(a.s[k].v, b.s[k].v))
            return false;
    return true;
}
std::string text(const Out &o) {
    std::string t = show(o.d);
    for (auto &m : o.s)
        t += " " + show(m);
    return t;
}

struct Case {
    const Serie &a, &b; // same count; a has items of any size, numbers for the functions of numbers
    Out out;
};
// an operation run with a callable of kind k; -1: the reference, a plain lambda (always possible)
struct Way {
    const char *name;
    bool numbers; // needs a Serie of numbers
    unsigned flags;
    bool (*run)(Case &, int k);
    void (*calls)(const M &, const M &);
};

template <class... X> void keep(Case &c, X &&...x) { (c.out(x), ...); }

// WAY(name, numbers, flags, body, expression using f)
#define WAY(NAME, NUM, FLAGS, BODY, ...)                                                                                \
    w.push_back({NAME, NUM, FLAGS, [](Case &c, int k) {                                                                 \
                     const Serie &s = c.a, &t = c.b;                                                                    \
                     (void)s, (void)t;                                                                                  \
                     c.out = Out();                                                                                     \
                     return form<FLAGS, BODY>(BODY, k, [&]<class F>(F &&f) { __VA_ARGS__; });                           \
                 },                                                                                                     \
                 [](const M &a, const M &b) { specified<FLAGS, BODY>(BODY, a, b); }})
#define FW std::forward<F>(f)

template <class R> void mapWays(std::vector<Way> &w, const char *const *n) {
    constexpr auto item = +body<R, const Array &, uint32_t>;
    constexpr auto num = +body<R, double, uint32_t>;
    WAY(n[0], false, (ALL), item, keep(c, df::map(FW, s)));
    WAY(n[1], false, (ALL), item, keep(c, s.map(FW)));
    WAY(n[2], true, (ALL), num, keep(c, df::map(FW, s)));
    WAY(n[3], true, (ALL), num, keep(c, s.map(FW)));
}
const char *const mapNames[5][4] = {
    {"map of items to numbers", "Serie::map of items to numbers", "map of numbers", "Serie::map of numbers"},
    {"map of items to float", "Serie::map of items to float", "map of numbers to float", "Serie::map of numbers to float"},
    {"map of items to int", "Serie::map of items to int", "map of numbers to int", "Serie::map of numbers to int"},
    {"map of items to bool", "Serie::map of items to bool", "map of numbers to bool", "Serie::map of numbers to bool"},
    {"map of items", "Serie::map of items", "map of numbers to items", "Serie::map of numbers to items"}};

const std::vector<Way> &ways() {
    static std::vector<Way> w;
    if (!w.empty())
        return w;
    mapWays<double>(w, mapNames[0]);
    mapWays<float>(w, mapNames[1]);
    mapWays<int>(w, mapNames[2]);
    mapWays<bool>(w, mapNames[3]);
    mapWays<Array>(w, mapNames[4]);
    constexpr auto item = +body<Array, const Array &, uint32_t>;
    constexpr auto num = +body<double, double, uint32_t>;
    constexpr auto two = +body<Array, const Array &, const Array &, uint32_t>;
    constexpr auto twoNum = +body<double, const Array &, const Array &, uint32_t>;
    constexpr auto pItem = +body<bool, const Array &, uint32_t>;
    constexpr auto pNum = +body<bool, double, uint32_t>;
    constexpr auto pTwo = +body<bool, const Array &, const Array &, uint32_t>;
    constexpr auto vItem = +body<void, const Array &, uint32_t>;
    constexpr auto vNum = +body<void, double, uint32_t>;
    constexpr auto vTwo = +body<void, const Array &, const Array &, uint32_t>;
    constexpr auto rItem = +body<Array, const Array &, const Array &, uint32_t>;
    constexpr auto rNum = +body<double, double, double, uint32_t>;
    constexpr auto cItem = +body<bool, const Array &>;
    constexpr auto cNum = +body<bool, double>;
    constexpr auto bItem = +body<Array, const Array &, uint32_t, const Serie &>;
    constexpr auto bNum = +body<double, double, uint32_t, const Serie &>;
    constexpr auto ser = &serieBody;
    WAY("apply to items", false, (ALL), item, keep(c, u::apply(FW, s)));
    WAY("apply to numbers", true, (ALL), num, keep(c, u::apply(FW, s)));
    WAY("make_map of items", false, (GEN), item, auto m = df::make_map(FW); keep(c, m(s)));
    WAY("make_map of numbers", true, (GEN), num, auto m = df::make_map(FW); keep(c, m(s)));
    WAY("map of two Series", false, (ALL), two, keep(c, df::map(FW, s, t)));
    WAY("map of two Series to numbers", false, (ALL), twoNum, keep(c, df::map(FW, s, t)));
    WAY("filter of items", false, (STATE | MUT), pItem, keep(c, df::filter(FW, s)));
    WAY("filter of numbers", true, (STATE | MUT), pNum, keep(c, df::filter(FW, s)));
    WAY("Serie::filter of items", false, (STATE | MUT), pItem, keep(c, s.filter(FW)));
    WAY("Serie::filter of numbers", true, (STATE | MUT), pNum, keep(c, s.filter(FW)));
    WAY("make_filter of items", false, (0u), pItem, auto m = df::make_filter(FW); keep(c, m(s)));
    WAY("make_filter of numbers", true, (0u), pNum, auto m = df::make_filter(FW); keep(c, m(s)));
    WAY("filter of two Series", false, (ALL), pTwo, auto r = df::filter(FW, s, t); keep(c, std::get<0>(r), std::get<1>(r)));
    WAY("reject of items", false, (STATE | MUT), pItem, keep(c, u::reject(FW, s)));
    WAY("reject of numbers", true, (STATE | MUT), pNum, keep(c, u::reject(FW, s)));
    WAY("cut of items", false, (STATE | MUT), pItem, keep(c, u::cut(FW, s)));
    WAY("cut of numbers", true, (STATE | MUT), pNum, keep(c, u::cut(FW, s)));
    WAY("make_reject of items", false, (0u), pItem, auto m = u::make_reject(FW); keep(c, m(s)));
    WAY("make_reject of numbers", true, (0u), pNum, auto m = u::make_reject(FW); keep(c, m(s)));
    WAY("reject of two Series", false, (ALL), pTwo, auto r = u::reject(FW, s, t); keep(c, std::get<0>(r), std::get<1>(r)));
    WAY("makeFind", true, (GEN | FIND), pNum, auto m = df::makeFind(FW); auto r = m(s); keep(c, r.value, r.index, r.found));
    WAY("makeFindAll", false, (GEN), pItem, auto m = df::makeFindAll(FW); keep(c, m(s)));
    WAY("make_check", false, (GEN), pItem, auto m = cnd::make_check(FW); keep(c, m(s)));
    WAY("make_forEach", false, (GEN), vItem, auto m = df::make_forEach(FW); m(s));
    WAY("make_reduce", true, (FOLD), rNum, auto m = df::make_reduce(FW, INIT); keep(c, m(s)));
    WAY("partition of items", false, (ALL), pItem, auto r = u::partition(FW, s); keep(c, std::get<0>(r), std::get<1>(r)));
    WAY("partition of numbers", true, (ALL), pNum, auto r = u::partition(FW, s); keep(c, std::get<0>(r), std::get<1>(r)));
    WAY("find of items", false, (ALL | FIND), pItem, if (s.itemSize() != 1) { auto r = df::find(FW, s); keep(c, r.value, r.index, r.found); });
    WAY("find of numbers", true, (ALL | FIND), pNum, auto r = df::find(FW, s); keep(c, r.value, r.index, r.found));
    WAY("findAll of items", false, (ALL), pItem, keep(c, df::findAll(FW, s)));
    WAY("findAll of numbers", true, (ALL), pNum, keep(c, df::findAll(FW, s)));
    WAY("check of items", false, (ALL), pItem, keep(c, cnd::check(s, FW)));
    WAY("check of numbers", true, (ALL), pNum, keep(c, cnd::check(s, FW)));
    WAY("forEach of items", false, (ALL), vItem, df::forEach(FW, s));
    WAY("forEach of numbers", true, (ALL), vNum, df::forEach(FW, s));
    WAY("Serie::forEach of items", false, (ALL), vItem, s.forEach(FW));
    WAY("Serie::forEach of numbers", true, (ALL), vNum, s.forEach(FW));
    WAY("forEach of two Series", false, (ALL), vTwo, df::forEach(FW, s, t));
    WAY("reduce of items", false, (STATE | MUT | FOLD), rItem, keep(c, df::reduce(FW, s, Array{1, 2})));
    WAY("reduce of numbers", true, (STATE | MUT | FOLD), rNum, keep(c, df::reduce(FW, s, INIT)));
    WAY("reduce of numbers in float", true, (STATE | MUT | FOLD), (+body<float, double, double, uint32_t>), keep(c, df::reduce(FW, s, INIT)));
    WAY("reduce of numbers in int", true, (STATE | MUT | FOLD), (+body<int, double, double, uint32_t>), keep(c, df::reduce(FW, s, INIT)));
    WAY("Serie::reduce of items", false, (STATE | MUT | FOLD), rItem, keep(c, s.reduce(FW, Array{1, 2})));
    WAY("Serie::reduce of numbers", true, (STATE | MUT | FOLD), rNum, keep(c, s.reduce(FW, INIT)));
    WAY("sort of items", false, (MUT | GEN | FREECALLS), (&lessBody), keep(c, u::sort(s, FW)));
    WAY("sort of numbers", true, (MUT | GEN | FREECALLS), (&lessNum), keep(c, u::sort(s, FW)));
    WAY("make_sort", false, (GEN | FREECALLS), (&lessBody), auto m = u::make_sort(FW); keep(c, m(s)));
    WAY("pipe", false, (ALL), ser, keep(c, df::pipe(s, FW)));
    WAY("Serie::pipe", false, (ALL), ser, keep(c, s.pipe(FW)));
    WAY("make_pipe", false, (GEN), ser, auto m = df::make_pipe(FW); keep(c, m(s)));
    WAY("compose", false, (GEN), ser, auto m = u::compose(FW, [](const Serie &x) { return x; }); keep(c, m(s)));
    WAY("memoize", false, (GEN), ser, auto m = u::memoize(FW); keep(c, m(s), m(s)));
    WAY("parallel_execute", false, (GEN | FREECALLS), ser, quiet = true; keep(c, u::parallel_execute(FW, s, 3)));
    WAY("if_then_else, condition on items", false, (ALL), cItem,
        auto b = [](const Array &v, uint32_t, const Serie &) { return v; };
        keep(c, cnd::if_then_else(s, FW, b, [](const Array &v, uint32_t, const Serie &) { Array r = v; r[0] = 1; return r; })));
    WAY("if_then_else, condition on numbers", true, (ALL), cNum,
        auto b = [](double v, uint32_t, const Serie &) { return v; };
        keep(c, cnd::if_then_else(s, FW, b, [](double, uint32_t, const Serie &) { return 1.; })));
    WAY("if_then_else, branch on items", false, (ALL), bItem,
        auto f2 = [](const Array &, uint32_t i, const Serie &) { return Array(1 + seed % 4, (double)i); };
        keep(c, cnd::if_then_else(s, [](const Array &v) { return v[0] > 0; }, FW, f2)));
    WAY("if_then_else, branch on numbers", true, (ALL), bNum,
        keep(c, cnd::if_then_else(s, [](double v) { return v > 0; }, [](double, uint32_t i, const Serie &) { return (double)i; }, FW)));
    return w;
}
} // namespace

LAW(same_result, 9, "an operation given the same function as a callable of another kind") {
    const Way &w = c.pick(ways());
    int k = (int)c.below(NK);
    seed = c.below(1 << 12);
    Opt o;
    if (w.numbers)
        o.isz = 1;
    o.maxCount = c.chance(1, 20) ? 200 : 12;
    M ma = genM(c, o), mb = genLike(c, ma, genProf(c, ~0u), genItemSize(c, 4));
    c.log(w.name, " with ", kinds[k], ", function ", seed, ", of ", show(ma), " and ", show(mb));
    Serie a = build(c, ma), b = build(c, mb);
    auto once = [&](int kind, Case &cs, std::string &err, uint64_t &n, uint64_t &what, uint64_t &ord) {
        calls = 0, sum = 0, order = 0, quiet = false;
        bool ok = true;
        try {
            ok = w.run(cs, kind);
        } catch (const pbt::Failure &) {
            throw;
        } catch (const std::exception &e) {
            err = std::string("error ") + e.what();
        }
        n = calls, what = sum, ord = order;
        return ok;
    };
    Case plain{a, b, {}}, other{a, b, {}};
    std::string e0, e1;
    uint64_t n0, n1, w0, w1, o0, o1;
    once(0, plain, e0, n0, w0, o0);
    if (!once(k, other, e1, n1, w1, o1))
        throw pbt::Discard{};
    c.nontrivial(n0 > 0 && k > 0);
    std::string what = std::string(w.name) + " given " + kinds[k];
    CHECK(e0 == e1, what, " ended with ", e1.empty() ? "no error" : e1, ", given a lambda with ", e0.empty() ? "no error" : e0);
    CHECK(same(plain.out, other.out), what, " gave\n  ", text(other.out), "\ninstead of\n  ", text(plain.out));
    if (!(w.flags & FREECALLS)) {
        if (e0.empty()) {
            calls = 0, sum = 0, order = 0;
            w.calls(ma, mb);
            CHECK(n0 == calls, w.name, " called its function ", n0, " times instead of ", calls.load());
            CHECK(w0 == sum, w.name, " called its function with other values than those of the items");
            CHECK(o0 == order, w.name, " called its function in another order than that of the items");
        }
        CHECK(n0 == n1, what, " called it ", n1, " times, a lambda ", n0, " times");
        CHECK(w0 == w1, what, " called it with other values than a lambda");
        CHECK(o0 == o1, what, " called it in another order than a lambda");
    }
    expectSame(a, ma, "the first Serie given to " + what, WITH_DIM);
    expectSame(b, mb, "the second Serie given to " + what, WITH_DIM);
}

// ---- predicates whose result is not a bool, but true or false in a condition
namespace {
struct Verdict { // convertible to bool
    int v;
    operator bool() const { return v != 0; }
};
int verdict; // of the case: how "true" is written
template <class R> R truth(bool b) {
    static const int anInt[] = {2, -1, 256, 1, 1 << 30};
    if constexpr (std::is_same_v<R, bool>)
        return b;
    else if constexpr (std::is_same_v<R, int>)
        return b ? anInt[verdict % 5] : 0;
    else if constexpr (std::is_same_v<R, long>)
        return b ? long(anInt[verdict % 5]) << 32 : 0;
    else if constexpr (std::is_same_v<R, double>)
        return b ? (verdict % 3 == 0 ? 0.5 : verdict % 3 == 1 ? -1e-300 : 3) : verdict % 2 ? -0. : 0.;
    else if constexpr (std::is_same_v<R, const void *>)
        return b ? &verdict : nullptr;
    else
        return R{b ? anInt[verdict % 5] : 0};
}
bool choice(const Array &a) { return hashOf(a) & 1; }
bool choice(double d) { return hashOf(d) & 1; }
struct Asked {
    const char *name;
    bool numbers;
    void (*run)(Case &, int type);
};
template <class T> struct Type {
    using type = T;
};
template <class Op> void withType(int t, Op &&op) {
    switch (t) {
    case 0: op(Type<bool>()); break;
#ifndef ONLY_LAMBDAS
    case 1: op(Type<int>()); break;
    case 2: op(Type<long>()); break;
    case 3: op(Type<double>()); break;
    case 4: op(Type<const void *>()); break;
    default: op(Type<Verdict>()); break;
#endif
    }
}
const char *const typeNames[] = {"a bool", "an int", "a long", "a double", "a pointer", "an object converted to bool"};
#define ASK(NAME, NUM, ...)                                                                                             \
    w.push_back({NAME, NUM, [](Case &c, int t) {                                                                        \
                     const Serie &s = c.a, &o = c.b;                                                                    \
                     (void)s, (void)o;                                                                                  \
                     c.out = Out();                                                                                     \
                     withType(t, [&]<class R>(Type<R>) {                                                                \
                         auto item = [](const Array &v, uint32_t) -> R { return truth<R>(choice(v)); };                 \
                         auto num = [](double v, uint32_t) -> R { return truth<R>(choice(v)); };                        \
                         auto one = [](const Array &v) -> R { return truth<R>(choice(v)); };                            \
                         auto oneNum = [](double v) -> R { return truth<R>(choice(v)); };                               \
                         auto two = [](const Array &v, const Array &x, uint32_t) -> R { return truth<R>(choice(v) != choice(x)); }; \
                         auto all = [](const Array &v, const Array &x) -> R { return truth<R>(choice(v) != choice(x)); };           \
                         auto less = [](const Array &v, const Array &x) -> R { return truth<R>(v < x); };               \
                         auto lessN = [](double v, double x) -> R { return truth<R>(v < x); };                          \
                         (void)item, (void)num, (void)one, (void)oneNum, (void)two, (void)all, (void)less, (void)lessN; \
                         __VA_ARGS__;                                                                                   \
                     });                                                                                                \
                 }})
const std::vector<Asked> &asked() {
    static std::vector<Asked> w;
    if (!w.empty())
        return w;
    ASK("find of items", false, if (s.itemSize() != 1) { auto r = df::find(item, s); keep(c, r.value, r.index, r.found); });
    ASK("find of numbers", true, auto r = df::find(num, s); keep(c, r.value, r.index, r.found));
    ASK("makeFind", true, auto m = df::makeFind(num); auto r = m(s); keep(c, r.value, r.index, r.found));
    ASK("findAll of items", false, keep(c, df::findAll(item, s)));
    ASK("findAll of numbers", true, keep(c, df::findAll(num, s)));
    ASK("partition of items", false, auto r = u::partition(item, s); keep(c, std::get<0>(r), std::get<1>(r)));
    ASK("partition of numbers", true, auto r = u::partition(num, s); keep(c, std::get<0>(r), std::get<1>(r)));
    ASK("check of items", false, keep(c, cnd::check(s, item)));
    ASK("check of numbers", true, keep(c, cnd::check(s, num)));
    ASK("filter of two Series", false, auto r = df::filter(two, s, o); keep(c, std::get<0>(r), std::get<1>(r)));
    ASK("reject of two Series", false, auto r = u::reject(two, s, o); keep(c, std::get<0>(r), std::get<1>(r)));
    ASK("filterAll", false, for (auto &x : df::filterAll(all, s, o)) keep(c, x));
    ASK("rejectAll", false, for (auto &x : u::rejectAll(all, s, o)) keep(c, x));
    ASK("sort of items", false, keep(c, u::sort(s, less)));
    ASK("sort of numbers", true, keep(c, u::sort(s, lessN)));
    ASK("if_then_else on items", false,
        keep(c, cnd::if_then_else(s, one, [](const Array &v, uint32_t, const Serie &) { return v; },
                                  [](const Array &v, uint32_t i, const Serie &) { return Array(v.size(), i); })));
    ASK("if_then_else on numbers", true,
        keep(c, cnd::if_then_else(s, oneNum, [](double v, uint32_t, const Serie &) { return v; },
                                  [](double, uint32_t i, const Serie &) { return (double)i; })));
    return w;
}
} // namespace

LAW(truth, 3, "a predicate that answers by another type than bool is understood as in a condition") {
    const Asked &w = c.pick(asked());
    int t = (int)c.range(1, 5);
    seed = c.below(1 << 12);
    verdict = (int)c.below(30);
    Opt o;
    if (w.numbers)
        o.isz = 1;
    o.prof = FINITE;
    o.maxCount = c.chance(1, 20) ? 200 : 12;
    M ma = genM(c, o), mb = genLike(c, ma, genProf(c, FINITE), genItemSize(c, 4));
    c.log(w.name, " with a predicate returning ", typeNames[t], " (", verdict, "), function ", seed, ", of ", show(ma), " and ", show(mb));
    Serie a = build(c, ma), b = build(c, mb);
    auto once = [&](int type, Case &cs, std::string &err) {
        try {
            w.run(cs, type);
        } catch (const pbt::Failure &) {
            throw;
        } catch (const std::exception &e) {
            err = std::string("error ") + e.what();
        }
    };
    Case plain{a, b, {}}, other{a, b, {}};
    std::string e0, e1;
    once(0, plain, e0);
    once(t, other, e1);
    c.nontrivial(ma.n > 0);
    std::string what = std::string(w.name) + " given a predicate that returns " + typeNames[t];
    CHECK(e0 == e1, what, " ended with ", e1.empty() ? "no error" : e1, ", given a bool with ", e0.empty() ? "no error" : e0);
    CHECK(same(plain.out, other.out), what, " gave\n  ", text(other.out), "\ninstead of\n  ", text(plain.out));
}

PBT_MAIN("C35",
         "A case is an operation (of the list of those that take a function of the user) and a kind of callable; the operation is run with a "
         "plain lambda and with a callable of that kind computing the same function, on the same generated Series. Non-trivial: the function "
         "is called and the kind is not the plain lambda.",
         300000, 6000000)
