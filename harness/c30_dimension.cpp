// C30: the space dimension survives every operation on items.
#include "ops.hpp"

namespace {
using ::show;
using namespace ops;

uint32_t matrixSize(uint32_t dim, bool full) { return full ? dim * dim : dim * (dim + 1) / 2; }

M genOf(Ctx &c, uint32_t dim, uint32_t n, const std::vector<uint32_t> &sizes) {
    M m;
    m.isz = c.pick(sizes);
    m.n = c.chance(4, 5) ? n : (uint32_t)c.range(0, 12);
    m.dim = dim;
    m.v = genValues(c, size_t(m.n) * m.isz, INTS | DYADIC | FEW | IDENT);
    return m;
}
// true if a 2D or 3D Serie of symmetric matrices is still decomposed as such
void expectDecomposed(const Serie &s, const std::string &what) {
    uint32_t d = s.dimension();
    Serie v = df::algebra::eigenValues(s), e = df::algebra::eigenVectors(s);
    CHECK(v.itemSize() == d, what, ": ", v.itemSize(), " eigenvalues for a ", d, "D matrix");
    CHECK(e.itemSize() == d * d, what, ": ", e.itemSize(), " eigenvector components for a ", d, "D matrix");
    CHECK(v.count() == s.count() && e.count() == s.count(), what, ": ", v.count(), " items instead of ", s.count());
    for (uint32_t i = 0; i < s.count(); ++i) {
        Array a = s.value(i), l = v.value(i);
        double tr = 0, sum = 0, mag = 1e-12;
        for (uint32_t k = 0, at = 0; k < d; at += d - k, ++k)
            tr += a[at];
        for (double x : l)
            sum += x;
        for (double x : a)
            mag = std::max(mag, std::abs(x));
        CHECK(std::abs(tr - sum) <= 1e-6 * mag, what, ": item ", i, " is ", ::show(a), ": its eigenvalues ", ::show(l), " do not add up to its trace ", tr);
    }
}
} // namespace

LAW(chain, 10, "every chain of operations over Series of one dimension gives Series of that dimension") {
    static const uint32_t dims[] = {2, 3, 1, 2, 4, 7};
    uint32_t dim = dims[c.weighted({5, 3, 2, 2, 1, 1})];
    std::vector<uint32_t> sizes{1, 2, 3};
    if (dim <= 3)
        sizes.insert(sizes.end(), {matrixSize(dim, false), matrixSize(dim, false), matrixSize(dim, true)});
    else
        sizes.insert(sizes.end(), {4, 6});
    uint32_t n = (uint32_t)c.range(1, c.chance(1, 8) ? 60 : 8);
    std::deque<Serie> pool;
    std::deque<int> depth;
    int k = (int)c.range(1, 4);
    for (int i = 0; i < k; ++i) {
        M m = genOf(c, dim, n, sizes);
        c.log("#", i, " = ", show(m));
        pool.push_back(c.flip() ? build(c, m) : direct(m));
        depth.push_back(0);
        CHECK(pool.back().dimension() == dim, "#", i, " was built with dimension ", dim, " and reports ", pool.back().dimension());
    }
    static const std::vector<const Op *> keeps = [] {
        std::vector<const Op *> r;
        for (auto &o : table())
            if (o.flags & KEEPS)
                r.push_back(&o);
        return r;
    }();
    int steps = (int)c.range(1, 10), applied = 0, deepest = 0;
    for (int st = 0; st < steps; ++st) {
        const Op &op = *keeps[c.below(keeps.size())];
        auto id = choose(c, op, pool);
        if ((int)id.size() < op.arity)
            continue;
        Prm p = genPrm(c);
        In in;
        std::string names;
        int d = 0;
        for (auto i : id) {
            in.push_back(&pool[i]);
            names += " #" + std::to_string(i);
            d = std::max(d, depth[i] + 1);
        }
        c.log(st, ": ", op.name, " of", names, " (seed ", p.seed, ", x ", p.x, ", k ", p.k, ")");
        Res r;
        if (!run(op, in, p, r) || r.threw)
            continue;
        ++applied;
        deepest = std::max(deepest, d);
        for (size_t i = 0; i < r.s.size(); ++i) {
            const Serie &s = r.s[i];
            if (s.count() == 0)
                continue;
            CHECK(s.dimension() == dim, "step ", st, ", ", op.name, " of", names, ": result ", i, " (", s.count(), " items of ", s.itemSize(),
                  ") has dimension ", s.dimension(), " instead of ", dim);
            if (pool.size() < 24 && s.size() <= 2000 && c.chance(2, 3)) {
                c.log("   #", pool.size(), " is result ", i);
                pool.push_back(s);
                depth.push_back(d);
            }
        }
    }
    for (size_t i = 0; i < pool.size(); ++i)
        CHECK(pool[i].dimension() == dim, "#", i, " has dimension ", pool[i].dimension(), " at the end instead of ", dim);
    if (dim == 2 || dim == 3)
        for (size_t i = 0; i < pool.size(); ++i)
            if (pool[i].itemSize() == matrixSize(dim, false) && pool[i].count() > 0 && depth[i] > 0) {
                bool fine = true;
                for (double x : pool[i].asArray())
                    fine = fine && std::isfinite(x) && std::abs(x) < 1e9;
                if (fine) {
                    expectDecomposed(pool[i], "#" + std::to_string(i) + " at the end of the chain");
                    c.label("decomposed at the end");
                }
            }
    c.label(dim == 1 ? "1D" : dim == 2 ? "2D" : dim == 3 ? "3D" : "4D or 7D");
    if (deepest >= 3)
        c.label("chain of 3 or more");
    c.nontrivial(dim != 3 && applied >= 1);
}

LAW(storage, 5, "constructors, copies, assignments, resizes and data frames keep the dimension") {
    uint32_t dim = (uint32_t)c.range(1, 9);
    M m = genOf(c, dim, (uint32_t)c.range(0, 9), {1, 2, 3, 4, 6, 9});
    Serie s = build(c, m);
    CHECK(s.dimension() == dim, "built with dimension ", dim, ": reports ", s.dimension());
    Serie sized(m.isz, 3, dim), vals(m.isz, m.v, dim);
    CHECK(sized.dimension() == dim, "Serie(itemSize, count, dimension)");
    CHECK(vals.dimension() == dim, "Serie(itemSize, values, dimension)");
    df::Dataframe f;
    std::vector<std::string> names{"a", "b", "c"};
    int steps = (int)c.range(1, 12);
    for (int st = 0; st < steps; ++st) {
        switch (c.below(8)) {
        case 0: {
            Serie t(s);
            s = t;
            break;
        }
        case 1: {
            Serie t(1, Array{1, 2}, dim + 1);
            t = s;
            CHECK(t.dimension() == dim, "an assigned Serie has dimension ", t.dimension());
            s = t;
            break;
        }
        case 2: s = s.clone(); break;
        case 3: s.reCount((uint32_t)c.range(1, 9)); break;
        case 4: {
            auto &n = c.pick(names);
            f.clear();
            f.add(n, s);
            s = f.get(n);
            break;
        }
        case 5: {
            f.clear();
            f.add("x", s);
            f.setCount((uint32_t)c.range(1, 12));
            s = f["x"];
            break;
        }
        case 6: {
            std::vector<Serie> l{s, s};
            l.resize(9, s);
            s = std::move(l.back());
            break;
        }
        default: {
            Serie t(std::move(s));
            s = df::toSerie(t.itemSize(), t.asArray(), t.dimension());
        }
        }
        CHECK(s.dimension() == dim, "step ", st, ": dimension ", s.dimension(), " instead of ", dim);
    }
    c.nontrivial(dim != 3 && steps > 1);
}

LAW(parallel, 3, "parallel execution over any number of cores keeps the dimension") {
    uint32_t dim = c.flip() ? 2 : (uint32_t)c.range(1, 5);
    M m = genOf(c, dim, (uint32_t)c.range(1, 40), {1, 2, 3, 4});
    uint32_t cores = (uint32_t)c.range(1, 9);
    Serie s = direct(m);
    Serie r = df::utils::parallel_execute([](const Serie &x) { return df::math::negate(x); }, s, cores);
    if (r.count() > 0)
        CHECK(r.dimension() == dim, "parallel negate: dimension ", r.dimension(), " instead of ", dim);
    c.nontrivial(dim != 3 && m.n > 0 && cores > 1);
}

LAW(mixed, 3, "operations on Series of different dimensions give Series of the dimension of the first") {
    static const std::vector<const Op *> several = [] {
        std::vector<const Op *> r;
        for (auto &o : table())
            if ((o.flags & KEEPS) && o.arity > 1 && std::string(o.name) != "Manager")
                r.push_back(&o);
        return r;
    }();
    std::deque<Serie> pool;
    uint32_t n = (uint32_t)c.range(1, 8), isz = (uint32_t)c.range(1, 4);
    int k = (int)c.range(2, 5);
    for (int i = 0; i < k; ++i) {
        M m = genOf(c, (uint32_t)c.range(1, 5), n, {isz, isz, 1, 2, 3, 6});
        c.log("#", i, " = ", show(m));
        pool.push_back(direct(m));
    }
    const Op &op = *several[c.below(several.size())];
    std::string name = op.name;
    auto id = choose(c, op, pool);
    if ((int)id.size() < op.arity)
        throw pbt::Discard{};
    Prm p = genPrm(c);
    In in;
    std::string names;
    std::vector<uint32_t> dims;
    for (auto i : id) {
        in.push_back(&pool[i]);
        names += " #" + std::to_string(i);
        dims.push_back(pool[i].dimension());
    }
    c.log(name, " of", names, " (seed ", p.seed, ", x ", p.x, ", k ", p.k, ")");
    Res r;
    if (!run(op, in, p, r) || r.threw)
        throw pbt::Discard{};
    // one result, or one group of results, for each Serie
    bool each = name == "filter of two" || name == "filterAll" || name == "reject of two" || name == "rejectAll" || name == "partition_n of two";
    if (each)
        CHECK(r.s.size() % dims.size() == 0, name, " of ", dims.size(), " Series gives ", r.s.size());
    for (size_t i = 0; i < r.s.size(); ++i) {
        const Serie &s = r.s[i];
        uint32_t want = each ? dims[i / (r.s.size() / dims.size())] : dims[0];
        if (name == "zipVector") // the result, then the Series given: the second and the first
            want = dims[i < 2 ? 1 : 0];
        if (name == "concat of a vector" && i > 0)
            want = dims[(i - 1) % 2];
        if (name == "div" || name == "div by numbers") // (divider, Serie)
            want = dims[1];
        if (s.count() > 0)
            CHECK(s.dimension() == want, name, " of", names, ": result ", i, " (", s.count(), " items of ", s.itemSize(), ") has dimension ",
                  s.dimension(), " instead of ", want);
    }
    c.label(op.name);
    c.nontrivial(std::set<uint32_t>(dims.begin(), dims.end()).size() > 1 && !r.s.empty());
}

PBT_MAIN("C30",
         "A case is a chain of 1 to 10 operations (of the about 70 of the table that work on items) over a pool of 1 to "
         "24 Series of one dimension among 1, 2, 3, 4 and 7, or a history of constructions, copies and resizes, or a "
         "parallel execution, or one operation on 2 or 3 Series of different dimensions. The dimension of every non-empty result is compared with that of the inputs, and "
         "symmetric matrices are decomposed at the end. Non-trivial: a dimension other than the default 3, and at least "
         "one operation applied.",
         160000, 1280000)
