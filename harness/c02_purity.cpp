// C02: operations are pure: inputs untouched, results independent, repeatable.
#include "ops.hpp"

namespace {
using ::show;
using namespace ops;
M genPool(Ctx &c, uint32_t n) {
    static const uint32_t z[] = {1, 3, 2, 6, 4, 9, 5};
    M m;
    m.isz = z[c.weighted({4, 5, 2, 4, 2, 3, 1})];
    m.n = c.chance(3, 4) ? n : genCount(c, 0, 40);
    m.dim = c.chance(1, 3) ? 2 : 3;
    m.v = genValues(c, size_t(m.n) * m.isz, c.chance(1, 6) ? ANY : INTS | DYADIC | REAL | FEW | IDENT);
    return m;
}
struct Call { // a past call: enough to make it again
    const Op *op;
    Prm p;
    std::vector<M> in;
    std::vector<size_t> ids; // which inputs are the same object
    Res res;
};
struct World {
    std::deque<Serie> pool;
    std::deque<M> snap;
    std::vector<Call> calls;
    void add(const Serie &s) {
        if (pool.size() >= 24 || s.size() > 3000 || s.itemSize() == 0)
            return;
        pool.push_back(s);
        snap.push_back(modelOf(s));
    }
    void unchanged(const std::string &what) const {
        for (size_t i = 0; i < pool.size(); ++i)
            expectSame(pool[i], snap[i], what + ": Serie #" + std::to_string(i), WITH_DIM);
    }
};
Res again(const Call &k) { // on other objects holding the same values
    std::deque<Serie> own;
    std::vector<const Serie *> in;
    for (size_t i = 0; i < k.in.size(); ++i) {
        const Serie *q = nullptr;
        for (size_t j = 0; j < i; ++j)
            if (k.ids[j] == k.ids[i])
                q = in[j];
        if (!q) {
            own.push_back(direct(k.in[i]));
            q = &own.back();
        }
        in.push_back(q);
    }
    Res r;
    run(*k.op, in, k.p, r);
    for (size_t i = 0; i < in.size(); ++i)
        expectSame(*in[i], k.in[i], std::string("the input of ") + k.op->name, WITH_DIM);
    return r;
}
void step(Ctx &c, World &w, int st, int &applied) {
    auto &tab = table();
    switch (c.weighted({8, 3, 3})) {
    case 0: {
        const Op &op = tab[c.below(tab.size())];
        auto id = choose(c, op, w.pool);
        if ((int)id.size() < op.arity)
            return;
        Prm p = genPrm(c);
        Call k{&op, p, {}, id, {}};
        In in;
        std::string names;
        for (auto i : id) {
            in.push_back(&w.pool[i]);
            k.in.push_back(w.snap[i]);
            names += " #" + std::to_string(i);
        }
        c.log(st, ": ", op.name, " of", names, " (seed ", p.seed, ", x ", p.x, ", k ", p.k, ")");
        const std::string what = "step " + std::to_string(st) + ", " + op.name + " of" + names;
        if (!run(op, in, p, k.res))
            return;
        ++applied;
        if (k.res.threw)
            c.label("an operation refused its inputs");
        w.unchanged(what);
        // keep a deep snapshot of the results
        Res r2;
        run(op, in, p, r2);
        expectSameRes(k.res, r2, what + ", called twice");
        w.unchanged(what + ", called twice");
        std::vector<Array> rebuilt;
        for (auto &s : k.res.s)
            rebuilt.push_back(s.asArray());
        // the results of the second call are written to: nothing else changes
        for (size_t i = 0; i < r2.s.size(); ++i) {
            std::vector<M> others;
            for (auto &s : r2.s)
                others.push_back(modelOf(s));
            if (r2.s[i].size() == 0)
                continue;
            r2.s[i].setScalar(0, 777.25);
            r2.s[i].asArray().back() = -777.25;
            for (size_t j = 0; j < r2.s.size(); ++j)
                if (j != i)
                    expectSame(r2.s[j], others[j], what + ": result " + std::to_string(j) + " after a write to result " + std::to_string(i), WITH_DIM);
        }
        w.unchanged(what + ", results written to");
        for (size_t i = 0; i < k.res.s.size(); ++i)
            CHECK(sameBits(k.res.s[i].asArray(), rebuilt[i]), what, ": result ", i, " changed with a write to the result of another call");
        for (auto &s : k.res.s)
            if (c.chance(1, 2))
                w.add(s);
        w.calls.push_back(k);
        break;
    }
    case 1: { // a write
        if (w.pool.empty())
            return;
        size_t i = c.below(w.pool.size());
        M &m = w.snap[i];
        Serie &s = w.pool[i];
        switch (c.below(4)) {
        case 0:
        case 1:
            if (m.v.empty())
                return;
            {
                size_t at = c.below(m.v.size());
                double v = double(c.range(-100, 100)) / 8;
                c.log(st, ": #", i, " value ", at, " = ", v);
                m.v[at] = v;
                if (c.flip())
                    s.setScalar(at, v);
                else
                    s.asArray()[at] = v;
            }
            break;
        case 2: {
            size_t j = c.below(w.pool.size());
            c.log(st, ": #", i, " = #", j);
            s = w.pool[j];
            m = w.snap[j];
            break;
        }
        default: {
            uint32_t n = (uint32_t)c.range(1, 8);
            c.log(st, ": #", i, " is resized to ", n);
            s.reCount(n);
            m.n = n;
            m.v.assign(size_t(n) * m.isz, 0.0);
        }
        }
        w.unchanged("step " + std::to_string(st) + ", write to #" + std::to_string(i));
        break;
    }
    default: { // a past call, made again
        if (w.calls.empty())
            return;
        const Call &k = c.pick(w.calls);
        c.log(st, ": again the ", k.op->name, " of a previous step");
        expectSameRes(k.res, again(k), std::string(k.op->name) + " of the same inputs, later");
        w.unchanged("step " + std::to_string(st));
    }
    }
}
} // namespace

LAW(program, 10, "any program of operations, writes and repeated calls over a pool of Series") {
    World w;
    uint32_t n = (uint32_t)c.range(1, c.chance(1, 8) ? 120 : 9);
    int k = (int)c.range(1, 6);
    for (int i = 0; i < k; ++i) {
        M m = genPool(c, n);
        c.log("#", i, " = ", show(m));
        w.add(build(c, m));
    }
    int steps = (int)c.range(2, 14), applied = 0;
    for (int st = 0; st < steps; ++st)
        step(c, w, st, applied);
    for (auto &k : w.calls)
        expectSameRes(k.res, again(k), std::string(k.op->name) + " of the same inputs, at the end");
    w.unchanged("at the end");
    c.nontrivial(applied >= 2);
}

LAW(interleaved, 6, "two operations do not disturb each other: A, B, A") {
    auto &tab = table();
    uint32_t n = (uint32_t)c.range(1, 8);
    std::vector<Serie> pool;
    for (uint32_t z : {1u, 1u, 3u, 3u, 6u, 9u, 4u, 2u}) {
        M m = genPool(c, n);
        m.isz = z;
        m.n = n;
        m.dim = z == 4 || (z == 3 && c.flip()) ? 2 : 3;
        m.v = genValues(c, size_t(n) * z, INTS | DYADIC | REAL | FEW);
        pool.push_back(direct(m));
    }
    const Op &a = tab[c.below(tab.size())], &b = c.chance(1, 4) ? a : tab[c.below(tab.size())];
    auto ia = choose(c, a, pool), ib = choose(c, b, pool);
    if ((int)ia.size() < a.arity || (int)ib.size() < b.arity)
        throw pbt::Discard{};
    In in, jn;
    for (auto i : ia)
        in.push_back(&pool[i]);
    for (auto i : ib)
        jn.push_back(&pool[i]);
    Prm p = genPrm(c), q = genPrm(c);
    c.log(a.name, ", ", b.name, ", ", a.name);
    for (auto &s : pool)
        c.log("  ", show(modelOf(s)));
    Res first, other, second;
    if (!run(a, in, p, first))
        throw pbt::Discard{};
    run(b, jn, q, other);
    run(a, in, p, second);
    expectSameRes(first, second, std::string(a.name) + " before and after " + b.name);
    c.nontrivial(!first.threw);
    if (first.threw)
        c.label("refused");
}

PBT_MAIN("C02",
         "A case is a program of 2 to 14 steps over a pool of 1 to 24 Series: operations of a table of about 90, writes, "
         "and past calls made again; every live Serie is compared with its snapshot after every step, every call is "
         "made at least twice with identical results, and results are written to. Non-trivial: at least two operations "
         "applied.",
         91000, 728000)
