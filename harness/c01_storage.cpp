// C01: a Serie stores exactly the items written to it.
#include "model.hpp"
#include <memory>

namespace {
struct Slot {
    std::unique_ptr<Serie> s;
    M m;
};

void verify(Ctx &c, const Serie &s, const M &m, const std::string &what, bool full) {
    expectSame(s, m, what, WITH_DIM);
    CHECK(s.isValid() == (m.isz > 0), what, ": isValid is wrong");
    auto one = [&](uint32_t i) {
        Array want = m.item(i);
        CHECK(sameBits(s.value(i), want), what, ": value(", i, ") is ", show(s.value(i)), ", expected ", show(want));
        CHECK(sameBits(s.get<Array>(i), want), what, ": get<Array>(", i, ") is ", show(s.get<Array>(i)), ", expected ",
              show(want));
        CHECK(sameBits(s.get(i), want), what, ": get(", i, ") is wrong");
        for (uint32_t j = 0; j < m.isz; ++j) {
            uint32_t k = i * m.isz + j;
            CHECK(sameBits(s.scalar(k), m.v[k]), what, ": scalar(", k, ") is ", num(s.scalar(k)), ", expected ",
                  num(m.v[k]));
            CHECK(sameBits(s.get<double>(k), m.v[k]), what, ": get<double>(", k, ") is wrong");
        }
    };
    if (full && m.n <= 24)
        for (uint32_t i = 0; i < m.n; ++i)
            one(i);
    else if (m.n) {
        one(0);
        one(m.n - 1);
        for (int k = 0; k < 3; ++k)
            one((uint32_t)c.below(m.n));
    }
    uint32_t sz = m.n * m.isz;
    CHECK(throws([&] { s.scalar(sz); }), what, ": scalar(size()) was not refused");
    CHECK(throws([&] { (void)s.get<double>(sz); }), what, ": get<double>(size()) was not refused");
    const Serie &k = s;
    CHECK(&k.asArray() == &k.asArray() && k.asArray().size() == sz, what, ": asArray is inconsistent");
}
uint32_t badIndex(Ctx &c, uint32_t n) {
    static const uint32_t huge[] = {0xffffffffu, 0x80000000u, 0x7fffffffu, 0x40000000u, 65536u, 0xfffffffeu};
    uint32_t i = c.flip() ? n + (uint32_t)c.below(4) : huge[c.below(6)];
    return i < n ? n : i;
}
M shape(Ctx &c, unsigned prof) {
    Opt o;
    o.prof = prof;
    return genM(c, o);
}
} // namespace

LAW(history, 6, "random histories of constructions, writes, refused writes, resizes and copies over a pool of Series") {
    std::vector<Slot> pool;
    int steps = (int)c.range(1, 22);
    int writes = 0, copies = 0, resizes = 0;
    for (int t = 0; t < steps; ++t) {
        size_t op = pool.empty() ? 0 : c.weighted({6, 5, 5, 5, 4, 4, 3, 3, 3, 3, 2, 4, 3});
        size_t a = pool.empty() ? 0 : c.below(pool.size());
        std::string what = "step " + std::to_string(t);
        auto put = [&](Slot &&s) {
            if (pool.size() < 5)
                pool.push_back(std::move(s));
            else
                pool[c.below(pool.size())] = std::move(s);
        };
        switch (op) {
        case 0: { // construction
            M m = shape(c, ANY);
            int how = (int)c.below(4);
            c.log(t, ": construct way ", how, " ", show(m));
            Slot s;
            s.m = m;
            if (how == 0)
                s.s = std::make_unique<Serie>((int)m.isz, m.v, m.dim);
            else if (how == 1) {
                s.m.v.assign(m.v.size(), 0.0);
                s.s = std::make_unique<Serie>((int)m.isz, m.n, m.dim);
            } else if (how == 2)
                s.s = std::make_unique<Serie>(build(c, m));
            else {
                // the default dimension is 3
                s.m.dim = 3;
                if (c.flip())
                    s.s = std::make_unique<Serie>((int)m.isz, m.v);
                else {
                    s.m.v.assign(m.v.size(), 0.0);
                    s.s = std::make_unique<Serie>((int)m.isz, m.n);
                }
            }
            verify(c, *s.s, s.m, what + " (construction)", true);
            put(std::move(s));
            break;
        }
        case 1: // whole item
        case 2: {
            auto &x = pool[a];
            if (!x.m.n)
                break;
            uint32_t i = (uint32_t)c.below(x.m.n);
            Array v = genValues(c, x.m.isz, ANY);
            c.log(t, ": #", a, op == 1 ? " setValue(" : " set<Array>(", i, ", ", show(v), ")");
            if (op == 1)
                x.s->setValue(i, v);
            else
                x.s->set(i, v);
            std::copy(v.begin(), v.end(), x.m.v.begin() + size_t(i) * x.m.isz);
            ++writes;
            break;
        }
        case 3: // scalar
        case 4: {
            auto &x = pool[a];
            if (x.m.v.empty())
                break;
            uint32_t i = (uint32_t)c.below(x.m.v.size());
            double v = genValues(c, 1, ANY)[0];
            c.log(t, ": #", a, op == 3 ? " setScalar(" : " set<double>(", i, ", ", num(v), ")");
            if (op == 3)
                x.s->setScalar(i, v);
            else
                x.s->set(i, v);
            x.m.v[i] = v;
            ++writes;
            break;
        }
        case 5: { // resize
            auto &x = pool[a];
            uint32_t n = c.chance(1, 4) ? x.m.n : genCount(c, 0, x.m.isz > 9 ? 700 : 70000);
            c.log(t, ": #", a, " reCount(", n, ")");
            x.s->reCount(n);
            x.m.n = n;
            x.m.v.assign(size_t(n) * x.m.isz, 0.0);
            ++resizes;
            break;
        }
        case 6: { // copy construction
            Slot s;
            s.m = pool[a].m;
            c.log(t, ": copy of #", a);
            s.s = std::make_unique<Serie>(*pool[a].s);
            ++copies;
            put(std::move(s));
            break;
        }
        case 7: { // clone
            Slot s;
            s.m = pool[a].m;
            c.log(t, ": clone of #", a);
            s.s = std::make_unique<Serie>(pool[a].s->clone());
            ++copies;
            put(std::move(s));
            break;
        }
        case 8: { // assignment, to itself too
            size_t b = c.below(pool.size());
            c.log(t, ": #", a, " = #", b);
            const Serie &src = *pool[b].s;
            Serie &ret = (*pool[a].s = src);
            CHECK(&ret == pool[a].s.get(), what, ": operator= does not return the Serie");
            pool[a].m = M(pool[b].m);
            ++copies;
            break;
        }
        case 9: { // assignment of a temporary, or through a moved Serie
            M m = shape(c, ANY);
            c.log(t, ": #", a, " = temporary ", show(m));
            *pool[a].s = Serie((int)m.isz, m.v, m.dim);
            pool[a].m = m;
            break;
        }
        case 10: { // raw access
            auto &x = pool[a];
            if (x.m.v.empty())
                break;
            size_t i = c.below(x.m.v.size());
            double v = genValues(c, 1, ANY)[0];
            c.log(t, ": #", a, " asArray()[", i, "] = ", num(v));
            x.s->asArray()[i] = v;
            x.m.v[i] = v;
            ++writes;
            break;
        }
        case 11: { // refused: index past the end
            auto &x = pool[a];
            uint32_t i = badIndex(c, x.m.n), k = badIndex(c, x.m.n * x.m.isz);
            Array v(x.m.isz, 7.5);
            int how = (int)c.below(6);
            c.log(t, ": #", a, " refused index ", i, "/", k, " way ", how);
            bool ok = true;
            if (how == 0)
                ok = throws([&] { x.s->setValue(i, v); });
            else if (how == 1)
                ok = throws([&] { x.s->set(i, v); });
            else if (how == 2)
                ok = throws([&] { x.s->setScalar(k, 7.5); });
            else if (how == 3)
                ok = throws([&] { x.s->set(k, 7.5); });
            else if (how == 4)
                ok = throws([&] { x.s->scalar(k); });
            else
                ok = throws([&] { (void)x.s->get<double>(k); });
            CHECK(ok, what, ": access past the end (item ", i, " of ", x.m.n, ", scalar ", k, " of ",
                  x.m.n * x.m.isz, ") was not refused");
            break;
        }
        case 12: { // refused: item of the wrong length
            auto &x = pool[a];
            uint32_t len = (uint32_t)c.below(2) ? x.m.isz + 1 + (uint32_t)c.below(3) : (uint32_t)c.below(x.m.isz);
            Array v(len, 7.5);
            uint32_t i = x.m.n ? (uint32_t)c.below(x.m.n) : 0;
            int how = (int)c.below(2);
            c.log(t, ": #", a, " refused item of ", len, " values at ", i);
            bool ok = how ? throws([&] { x.s->setValue(i, v); }) : throws([&] { x.s->set(i, v); });
            CHECK(ok, what, ": item of ", len, " values accepted by a Serie of itemSize ", x.m.isz);
            break;
        }
        }
        for (size_t k = 0; k < pool.size(); ++k)
            verify(c, *pool[k].s, pool[k].m, what + ", #" + std::to_string(k), false);
    }
    c.nontrivial(writes + copies + resizes >= 2);
    if (copies)
        c.label("with copies");
    if (resizes)
        c.label("with resizes");
}

LAW(accessors, 3, "every accessor of every item against the values the Serie was built from") {
    M m = genM(c, {.prof = ANY});
    Serie s = build(c, m);
    c.log(show(m));
    verify(c, s, m, "built Serie", true);
    // writing every item to a sized Serie, in any order
    Serie t((int)m.isz, m.n, m.dim);
    std::vector<uint32_t> order(m.n);
    for (uint32_t i = 0; i < m.n; ++i)
        order[i] = i;
    pbt::Rng r(c.below(1 << 20));
    for (uint32_t i = m.n; i > 1; --i)
        std::swap(order[i - 1], order[r.below(i)]);
    bool scalars = c.flip();
    for (auto i : order)
        if (scalars)
            for (uint32_t j = 0; j < m.isz; ++j)
                t.setScalar(i * m.isz + j, m.at(i, j));
        else
            t.setValue(i, m.item(i));
    verify(c, t, m, "written in a random order", true);
    c.nontrivial(m.n >= 1);
}

LAW(literals, 1, "construction from initializer lists and conversion with toSerie") {
    double a = genValues(c, 1, ANY)[0], b = genValues(c, 1, ANY)[0], d = genValues(c, 1, ANY)[0];
    unsigned dim = genDim(c);
    verify(c, Serie(1, {a, b, d}, dim), M::make(1, {a, b, d}, dim), "Serie(1, {3 values})", true);
    verify(c, Serie(2, {a, b, d, a}), M::make(2, {a, b, d, a}, 3), "Serie(2, {4 values})", true);
    verify(c, Serie(3, {a, b, d, a, a, b}, dim), M::make(3, {a, b, d, a, a, b}, dim), "Serie(3, {6 values})", true);
    verify(c, df::toSerie(3, Array{a, b, d}, dim), M::make(3, {a, b, d}, dim), "toSerie", true);
    verify(c, df::toSerie(1, Array{a, b}), M::make(1, {a, b}, 3), "toSerie default dimension", true);
    Serie none;
    CHECK(!none.isValid() && none.count() == 0 && none.size() == 0 && none.asArray().empty(),
          "a default Serie is not empty and invalid");
    CHECK(throws([&] { none.scalar(0); }) && throws([&] { none.setScalar(0, 1); }) &&
              throws([&] { none.setValue(0, Array{}); }),
          "access to a default Serie was not refused");
    Serie n2(none);
    Serie n3 = Serie(2, {a, b}, dim);
    n3 = none;
    CHECK(!n2.isValid() && !n3.isValid() && n3.count() == 0 && n3.asArray().empty() && !none.clone().isValid(),
          "copies of a default Serie are not empty and invalid");
    n3 = Serie(2, {a, b}, dim);
    verify(c, n3, M::make(2, {a, b}, dim), "assigned after being invalid", true);
    c.nontrivial();
}

PBT_MAIN("C01",
         "A case is a history of 1-22 steps over a pool of up to 5 Series (or a full accessor sweep of one Serie); "
         "counts 0-66100, item sizes 1-300, any bit pattern. Non-trivial: at least two writes, copies or resizes "
         "(history), or at least one item (accessors).",
         38000, 800000)
