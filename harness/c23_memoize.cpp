// C23: memoized functions are indistinguishable from the original.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
// A pure function of everything a Serie is.
struct Fun {
    uint64_t seed = 0;
    int kind = 0;
    uint64_t hash(const M &m) const {
        uint64_t h = pbt::mix64(seed ^ m.isz * 131 ^ (uint64_t(m.n) << 20) ^ (uint64_t(m.dim) << 50));
        for (double d : m.v)
            h = pbt::mix64(h ^ std::bit_cast<uint64_t>(d));
        return h;
    }
    bool fails(const M &m) const { return kind == 3 && hash(m) % 4 == 0; }
    M model(const M &m) const {
        uint64_t h = hash(m);
        if (kind == 0) { // same shape
            M r = m;
            for (size_t i = 0; i < r.v.size(); ++i)
                r.v[i] = double((h + i * 7919) % 10007);
            return r;
        }
        M r = M::empty(1 + h % 4, h % 2 ? 2 : 3); // any shape
        r.n = h % 5;
        for (uint32_t i = 0; i < r.n * r.isz; ++i)
            r.v.push_back(double(pbt::mix64(h + i) % 4001) / 8);
        return r;
    }
};
std::string key(const M &m) {
    std::string k = std::to_string(m.isz) + "/" + std::to_string(m.n) + "/" + std::to_string(m.dim) + "/";
    k.append((const char *)m.v.data(), m.v.size() * sizeof(double));
    return k;
}
// an argument close to another one
M variant(Ctx &c, const M &a) {
    M m = a;
    size_t n = m.v.size();
    switch (c.below(10)) {
    case 0: // equal
        break;
    case 1: // one value, by one ulp
        if (n) {
            size_t k = c.flip() ? n - 1 : c.below(n);
            m.v[k] = std::nextafter(m.v[k], c.flip() ? 1e308 : -1e308);
        }
        break;
    case 2: // one value
        if (n)
            m.v[c.flip() ? n - 1 : c.below(n)] += 1;
        break;
    case 3: // the same values, reordered
        if (n > 1) {
            size_t i = c.below(n), j = c.below(n);
            std::swap(m.v[i], m.v[j]);
        }
        break;
    case 4: // another layout of the same values
        for (uint32_t k = (uint32_t)c.range(1, 6); k <= 6; ++k)
            if (k != m.isz && n % k == 0) {
                m.isz = k;
                m.n = n / k;
                break;
            }
        break;
    case 5:
        m.dim = m.dim == 3 ? 2 : 3;
        break;
    case 6: // one item less
        if (m.n) {
            --m.n;
            m.v.resize(size_t(m.n) * m.isz);
        }
        break;
    case 7: // one zero item more
        ++m.n;
        m.v.resize(size_t(m.n) * m.isz, 0.0);
        break;
    case 8: // sums and products unchanged
        if (n > 1) {
            size_t i = c.below(n), j = (i + 1) % n;
            m.v[i] += 1;
            m.v[j] -= 1;
        }
        break;
    case 9: // the other zero
        for (auto &x : m.v)
            if (x == 0)
                x = -x;
        if (n && c.flip())
            m.v[0] = c.flip() ? 0.0 : -0.0;
        break;
    }
    return m;
}
} // namespace

LAW(history, 10, "any history of calls, cache clears and changes to arguments and results") {
    Fun f;
    f.seed = c.below(1 << 20);
    f.kind = (int)c.below(4);
    std::vector<M> args{genM(c, {.prof = c.chance(1, 4) ? unsigned(ANY) : unsigned(EXACT), .maxCount = c.chance(1, 6) ? 3000u : 40u, .maxIsz = c.chance(1, 4) ? 40u : 6u})};
    while (args.size() < 6)
        args.push_back(c.chance(1, 6) ? genM(c, {.prof = EXACT, .maxCount = 20, .maxIsz = 6}) : variant(c, c.pick(args)));
    auto calls = std::make_shared<std::map<std::string, int>>();
    auto mf = df::utils::memoize([f, calls](const Serie &s) {
        M m = modelOf(s);
        ++(*calls)[key(m)];
        if (f.fails(m))
            throw std::runtime_error("refused by the function");
        return direct(f.model(m));
    });
    c.log("function kind ", f.kind, " seed ", f.seed);
    for (size_t k = 0; k < args.size(); ++k)
        c.log("  argument ", k, ": ", show(args[k]));
    int steps = (int)c.range(3, 24), repeated = 0;
    std::map<std::string, bool> seen;
    for (int k = 0; k < steps; ++k) {
        if (c.chance(1, 10)) {
            c.log("clear_cache");
            mf.clear_cache();
            calls->clear();
            seen.clear();
            continue;
        }
        size_t a = c.below(args.size());
        int style = (int)c.below(4);
        c.log("call with argument ", a, " style ", style);
        std::string id = key(args[a]);
        bool known = seen.count(id);
        repeated += known;
        seen[id] = true;
        M w = f.model(args[a]);
        Serie s = build(c, args[a]);
        bool fails = f.fails(args[a]);
        Serie r;
        bool thrown = throws([&] { r = mf(s); });
        CHECK(thrown == fails, "call ", k, thrown ? ": threw" : ": did not throw as the function does");
        if (!fails) {
            expectSame(r, w, "the memoized result", WITH_DIM);
            CHECK((*calls)[id] == 1, "the function was called ", (*calls)[id], " times for argument ", a);
        }
        expectSame(s, args[a], "the argument", WITH_DIM);
        if (style == 1 && r.count()) { // later changes to the result, the argument
            r.setScalar(0, 777);
            r.reCount(1);
        }
        if (style == 2 && s.count()) {
            s.setScalar(0, -777);
            expectSame(r, fails ? modelOf(r) : w, "the result after a change of the argument");
            if (!fails) {
                M ch = modelOf(s); // the changed object is another argument
                int before = (*calls)[key(ch)];
                bool t2 = throws([&] { r = mf(s); });
                CHECK(t2 == f.fails(ch), "the changed argument: ", t2 ? "threw" : "did not throw");
                if (!t2) {
                    expectSame(r, f.model(ch), "the result for the changed argument", WITH_DIM);
                    CHECK((*calls)[key(ch)] <= std::max(1, before), "called again for a known argument");
                    seen[key(ch)] = true;
                }
            }
        }
        if (style == 3 && !fails)
            expectSame(mf(Serie((int)args[a].isz, args[a].v, args[a].dim)), w, "the result for a temporary", WITH_DIM);
    }
    if (f.kind != 3)
        for (auto &[k, n] : *calls)
            CHECK(n <= 1, "the function was called ", n, " times for one argument");
    c.nontrivial(repeated >= 1 && seen.size() >= 2);
}

LAW(many, 2, "hundreds of arguments, then all of them again") {
    Fun f;
    f.seed = c.below(1 << 20);
    f.kind = (int)c.below(2);
    M base = genM(c, {.prof = EXACT, .minCount = 2, .maxCount = 12, .maxIsz = 3});
    int n = (int)c.range(50, 400), calls = 0;
    c.log(n, " arguments like ", show(base), " function seed ", f.seed);
    auto mf = df::utils::memoize([&](const Serie &s) {
        ++calls;
        return direct(f.model(modelOf(s)));
    });
    for (int round = 0; round < 2; ++round)
        for (int k = 0; k < n; ++k) {
            M m = base;
            m.v[k % m.v.size()] += k / int(m.v.size()) + 1;
            expectSame(mf(direct(m)), f.model(m), "the memoized result", WITH_DIM);
            CHECK(calls <= k + 1 + (round ? n : 0), "too many calls");
        }
    CHECK(calls <= n, "the function was called ", calls, " times for at most ", n, " arguments");
    c.nontrivial();
}

PBT_MAIN("C23",
         "A case is a history of up to 24 calls of one memoized function (pure, sometimes failing) on six related "
         "arguments (equal, one ulp apart, permuted, reshaped, other dimension, one item more or less, other zero), "
         "with cache clears and writes to arguments and results. Non-trivial: a repeated argument and two distinct ones.",
         84000, 800000)
