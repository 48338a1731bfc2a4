// Injected failures: functions of the user that throw, allocations that fail.
#pragma once
#include "ops.hpp"
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/utils/utils.h>
#include <atomic>
#include <array>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <new>

// Allocations are counted, and one of them may be made to fail.
static std::atomic<long> live{0}, made{0}, failAt{-1};
static std::atomic<bool> paused{false}; // allocations of the harness itself
void *operator new(size_t n) {
    if (!paused.load()) {
        long k = made.fetch_add(1);
        if (k == failAt.load())
            throw std::bad_alloc();
    }
    void *p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    live.fetch_add(1);
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept {
    try {
        return operator new(n);
    } catch (...) {
        return nullptr;
    }
}
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept {
    if (p) {
        live.fetch_sub(1);
        std::free(p);
    }
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { operator delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { operator delete(p); }

namespace {
using ::show;
using namespace ops;
using std::to_string;

struct Pause {
    Pause() { paused = true; }
    ~Pause() { paused = false; }
};
struct Boom { // an error of the user, which is no std::exception
    uint64_t id;
};
struct Oops : std::runtime_error { // one which is
    uint64_t id;
    Oops(uint64_t i) : std::runtime_error("oops " + to_string(i)), id(i) {}
};
// Called by every user function: throws at a chosen call.
struct Hook {
    std::atomic<long> calls{0};
    long at = -1;
    int kind = 0;
    uint64_t id = 0;
    void operator()() {
        if (calls.fetch_add(1) != at)
            return;
        switch (kind) {
        case 0:
            throw Oops(id);
        case 1:
            throw Boom{id};
        case 2:
            throw std::invalid_argument("bad " + to_string(id));
        case 3:
            throw std::out_of_range("far " + to_string(id));
        case 4:
            throw std::bad_alloc();
        default:
            throw (int)(id & 0xffff);
        }
    }
};
std::string expected(int kind, uint64_t id) {
    switch (kind) {
    case 0:
        return "Oops " + to_string(id);
    case 1:
        return "Boom " + to_string(id);
    case 2:
        return "invalid_argument bad " + to_string(id);
    case 3:
        return "out_of_range far " + to_string(id);
    case 4:
        return "bad_alloc";
    default:
        return "int " + to_string(id & 0xffff);
    }
}
// What an operation ended with: nothing, or the error described.
template <class F> std::string ending(F &&f) {
    try {
        f();
        return "";
    } catch (const Skip &) {
        return "skip";
    } catch (const Oops &e) {
        return "Oops " + to_string(e.id);
    } catch (const Boom &e) {
        return "Boom " + to_string(e.id);
    } catch (int e) {
        return "int " + to_string(e);
    } catch (const std::bad_alloc &) {
        return "bad_alloc";
    } catch (const std::invalid_argument &e) {
        return std::string("invalid_argument ") + e.what();
    } catch (const std::out_of_range &e) {
        return std::string("out_of_range ") + e.what();
    } catch (const std::exception &e) {
        return std::string("exception ") + e.what();
    } catch (...) {
        return "something else";
    }
}
enum : unsigned { PAR = 1024, ANYTIMES = 2048 }; // runs in parallel; may call its functions after a failure

struct HOp {
    const char *name;
    int arity;
    unsigned flags;
    void (*fn)(const In &, const Prm &, Hook &, Res &);
};
#define S (*in[0])
#define T (*in[1])
#define U (*in[2])
#define HOP(name, arity, flags, ...)                                                                                   \
    {name, arity, flags, [](const In &in, const Prm &p, Hook &h, Res &r) { (void)in, (void)p, (void)r, (void)h; __VA_ARGS__; }}
#define ITEM [&h, p](const Array &v, uint32_t i) { h(); return turn(v, i, p); }
#define PRED [&h, p](const Array &v, uint32_t i) -> bool { h(); return keep(v, i, p); }
#define PRED2 [&h, p](const Array &v, const Array &w, uint32_t i) -> bool { h(); return keep(v, i + w.size(), p); }
#define WHOLE(e) [&h, p](const Serie &s) { h(); return e; }

const std::vector<HOp> &higher() {
    namespace u = df::utils;
    static const std::vector<HOp> t{
        HOP("map of items", 1, 0, r.put(df::map(ITEM, S))),
        HOP("map to numbers", 1, 0, r.put(df::map([&h, p](const Array &v, uint32_t i) { h(); return turn(v, i, p)[0]; }, S))),
        HOP("map of numbers", 1, SCALAR, r.put(df::map([&h, p](double v, uint32_t i) { h(); return v * p.x + i; }, S))),
        HOP("map of numbers to items", 1, SCALAR, r.put(df::map([&h, p](double v, uint32_t i) { h(); return Array(p.k + 1, v + i); }, S))),
        HOP("map of two", 2, COUNT, r.put(df::map([&h, p](const Array &v, const Array &w, uint32_t i) { h(); Array t = turn(v, i, p); t.push_back(w[0]); return t; }, S, T))),
        HOP("map of three to numbers", 3, COUNT, r.put(df::map([&h](const Array &v, const Array &w, const Array &z, uint32_t) { h(); return z.back() + v[0] * w[0]; }, S, T, U))),
        HOP("Serie::map", 1, 0, r.put(S.map(ITEM))),
        HOP("make_map", 1, 0, auto f = df::make_map(ITEM); r.put(f(S))),
        HOP("map of a list", 1, 0, auto l = df::map<double>(S.asArray(), [&h](double v) { h(); return v + 1; }); r.put(Array(l))),
        HOP("apply", 1, 0, r.put(u::apply(ITEM, S))),
        HOP("if_then_else", 1, 0,
            if (S.itemSize() == 1) r.put(df::cond::if_then_else(
                S, [&h, p](double v) { h(); return v > p.x; }, [&h](double v, uint32_t, const Serie &) { h(); return -v; },
                [&h](double v, uint32_t i, const Serie &s) { h(); return v + s.asArray()[i]; }));
            else r.put(df::cond::if_then_else(
                S, [&h, p](const Array &v) { h(); return v[0] > p.x; }, [&h, p](const Array &v, uint32_t i, const Serie &) { h(); return turn(v, i, p); },
                [&h](const Array &v, uint32_t i, const Serie &s) { h(); Array w = s.value(i); w[0] += v.back(); return w; }))),
        HOP("check", 1, 0, r.put(df::cond::check(S, PRED))),
        HOP("filter", 1, 0, r.put(df::filter(PRED, S))),
        HOP("Serie::filter", 1, 0, r.put(S.filter(PRED))),
        HOP("filter of numbers", 1, SCALAR, r.put(df::filter([&h, p](double v, uint32_t i) -> bool { h(); return keep(Array{v}, i, p); }, S))),
        HOP("filter of two", 2, COUNT, r.put(df::filter(PRED2, S, T))),
        HOP("filterAll", 2, COUNT, r.put(df::filterAll([&h, p](const Array &v, const Array &w) -> bool { h(); return keep(v, w.size(), p); }, S, T))),
        HOP("reject", 1, 0, r.put(u::reject(PRED, S))),
        HOP("reject of two", 2, COUNT, r.put(u::reject(PRED2, S, T))),
        HOP("rejectAll", 2, COUNT, r.put(u::rejectAll([&h, p](const Array &v, const Array &w) -> bool { h(); return keep(v, w.size(), p); }, S, T))),
        HOP("cut", 1, 0, r.put(u::cut(PRED, S))),
        HOP("partition", 1, 0, auto [x, y] = u::partition(PRED, S); r.put(x); r.put(y)),
        HOP("findAll", 1, 0, r.put(df::findAll(PRED, S))),
        HOP("find", 1, VECTOR, auto f = df::find([&h, p](const Array &v, uint32_t i) -> bool { h(); return keep(v, i, p) && p.k > 3; }, S); r.put(double(f.found))),
        HOP("sort with a comparator", 1, 0, r.put(u::sort(S, [&h](const Array &v, const Array &w) { h(); return w[0] < v[0]; }))),
        HOP("forEach", 1, 0, if (S.itemSize() == 1) df::forEach([&](double v, uint32_t i) { h(); r.put(v + i); }, S);
            else df::forEach([&](const Array &v, uint32_t i) { h(); r.put(v); r.put(double(i)); }, S)),
        HOP("Serie::forEach", 1, VECTOR, S.forEach([&](const Array &v, uint32_t i) { h(); r.put(v); r.put(double(i)); })),
        HOP("forEach of two", 2, COUNT, df::forEach([&](const Array &v, const Array &w, uint32_t i) { h(); r.put(v); r.put(w); r.put(double(i)); }, S, T)),
        HOP("reduce", 1, 0, if (S.itemSize() == 1) r.put(df::reduce([&h](double acc, double v, uint32_t i) { h(); return acc * 0.5 + v + i; }, S, p.x));
            else r.put(df::reduce([&h](const Array &acc, const Array &v, uint32_t i) { h(); return Array{acc[0] * 0.5 + v[0] + i, v.back()}; }, S, Array{p.x, 0}))),
        HOP("pipe", 1, 0, r.put(df::pipe(S, WHOLE(df::math::negate(s)), WHOLE(df::math::scale(s, p.x)), WHOLE(df::math::add(s, s))))),
        HOP("Serie::pipe", 1, 0, r.put(S.pipe(WHOLE(df::math::negate(s)), WHOLE(df::math::scale(s, p.x))))),
        HOP("make_pipe", 1, 0, auto f = df::make_pipe(WHOLE(df::math::negate(s)), WHOLE(df::math::scale(s, p.x))); r.put(f(S)); r.put(f(S))),
        HOP("compose", 1, 0, auto f = u::compose(WHOLE(df::math::negate(s)), WHOLE(df::math::scale(s, p.x)), WHOLE(df::math::add(s, s))); r.put(f(S))),
        HOP("memoize", 1, 0, auto f = u::memoize(WHOLE(df::math::scale(s, p.x))); r.put(f(S)); r.put(f(S)); r.put(f(r.s[0]))),
        HOP("parallel_execute", 1, PAR, r.put(u::parallel_execute(WHOLE(df::math::scale(s, p.x)), S, p.k))),
        HOP("UserDefinedDecomposer", 1, 0,
            df::Dataframe d; d.add("a", S);
            auto f = [&h](const df::Dataframe &x) { h(); return df::math::negate(x["a"]); };
            df::UserDefinedDecomposer<decltype(f) &> dec(S.itemSize(), "b", f);
            for (auto &n : dec.names(d, S.itemSize(), d["a"], "a")) r.put(dec.serie(d, S.itemSize(), n))),
        HOP("Manager of a user's decomposer", 1, 0,
            df::Dataframe d; d.add("a", S);
            auto f = [&h](const df::Dataframe &x) { h(); return df::math::negate(x["a"]); };
            df::Manager g(d, {}, S.dimension());
            g.add(new df::UserDefinedDecomposer<decltype(f) &>(S.itemSize(), "b", f));
            for (auto &n : g.names(S.itemSize())) r.put(g.serie(S.itemSize(), n));
            r.put(double(g.contains(S.itemSize(), "b")))),
    };
    return t;
}
#undef S
#undef T
#undef U

std::vector<M> genPool(Ctx &c, uint32_t most) {
    uint32_t n = (uint32_t)c.range(1, most);
    std::vector<M> r;
    for (uint32_t z : {1u, 1u, 3u, 3u, 6u, 9u, 4u, 2u}) {
        M m;
        m.isz = z;
        m.n = n;
        m.dim = z == 4 || (z == 3 && c.flip()) ? 2 : 3;
        m.v = genValues(c, size_t(n) * z, INTS | DYADIC | REAL | FEW);
        r.push_back(m);
    }
    return r;
}
struct Pool {
    std::vector<M> ms;
    std::deque<Serie> s;
    Pool(Ctx &c, uint32_t most) : ms(genPool(c, most)) {
        for (auto &m : ms)
            s.push_back(direct(m));
    }
    template <class O> In inputs(Ctx &c, const O &op, std::string &text) {
        auto id = choose(c, Op{op.name, op.arity, op.flags, nullptr}, s);
        if ((int)id.size() < op.arity)
            throw pbt::Discard{};
        In in;
        for (auto i : id) {
            in.push_back(&s[i]);
            text += " " + show(ms[i]);
        }
        return in;
    }
    void unchanged(const std::string &what) {
        for (size_t i = 0; i < s.size(); ++i)
            expectSame(s[i], ms[i], "an input after " + what, WITH_DIM);
    }
};
// Runs f (which owns its results) with the given allocation failing. What it ended with is kept without allocating.
struct Outcome {
    bool failed = false;   // the allocation was reached
    char what[160] = "";   // the error, or empty
    long leaked = 0;
    long allocations = 0;
};
void keepText(Outcome &o, const char *a, const char *b = "") { std::snprintf(o.what, sizeof o.what, "%s%s", a, b); }
template <class F> Outcome observe(long k, F &&f) {
    Outcome o;
    long before = live.load();
    made = 0;
    failAt = k;
    try {
        f();
    } catch (const std::bad_alloc &) {
        keepText(o, "bad_alloc");
    } catch (const Skip &) {
        keepText(o, "skip");
    } catch (const Oops &e) {
        failAt = -1;
        std::snprintf(o.what, sizeof o.what, "Oops %llu", (unsigned long long)e.id);
    } catch (const Boom &e) {
        failAt = -1;
        std::snprintf(o.what, sizeof o.what, "Boom %llu", (unsigned long long)e.id);
    } catch (int e) {
        failAt = -1;
        std::snprintf(o.what, sizeof o.what, "int %d", e);
    } catch (const std::invalid_argument &e) {
        keepText(o, "invalid_argument ", e.what());
    } catch (const std::out_of_range &e) {
        keepText(o, "out_of_range ", e.what());
    } catch (const std::exception &e) {
        keepText(o, "exception ", e.what());
    } catch (...) {
        keepText(o, "something else");
    }
    o.allocations = made.load();
    o.failed = k >= 0 && o.allocations > k;
    failAt = -1;
    o.leaked = live.load() - before;
    return o;
}
} // namespace

