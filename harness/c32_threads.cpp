// C32: operations can be used from several threads at once (built with ThreadSanitizer).
#include "ops.hpp"
#include <atomic>
#include <barrier>
#include <memory>
#include <thread>

namespace {
using ::show;
using namespace ops;
using std::to_string;

// Runs the jobs at the same time, each on its own thread. Returns the failures reported.
template <class F> void together(int k, F &&job) {
    std::barrier start(k);
    std::vector<std::string> err(k);
    std::vector<std::thread> th;
    for (int i = 0; i < k; ++i)
        th.emplace_back([&, i] {
            start.arrive_and_wait();
            try {
                job(i);
            } catch (const pbt::Failure &f) {
                err[i] = f.msg;
            } catch (const std::exception &e) {
                err[i] = std::string("unexpected exception: ") + e.what();
            }
        });
    for (auto &t : th)
        t.join();
    for (int i = 0; i < k; ++i)
        CHECK(err[i].empty(), "thread ", i, ": ", err[i]);
}
std::vector<M> genPool(Ctx &c) {
    uint32_t n = (uint32_t)c.range(1, c.chance(1, 10) ? 90 : 8);
    std::vector<M> r;
    for (uint32_t z : {1u, 1u, 3u, 3u, 6u, 9u, 4u, 2u}) {
        if (c.chance(1, 10))
            continue;
        M m;
        m.isz = z;
        m.n = n;
        m.dim = z == 4 || (z == 3 && c.flip()) ? 2 : 3;
        m.v = genValues(c, size_t(n) * z, INTS | DYADIC | REAL | FEW);
        r.push_back(m);
    }
    return r;
}
struct Call {
    const Op *op;
    In in;
    Prm p;
    Res got;
    bool ran = false;
    std::string text;
};
Call genCall(Ctx &c, const std::deque<Serie> &pool, const Op *op = nullptr) {
    auto &tab = table();
    for (int t = 0; t < 4; ++t, op = nullptr) {
        const Op &o = op ? *op : tab[c.below(tab.size())];
        auto id = choose(c, o, pool);
        if ((int)id.size() < o.arity)
            continue;
        Call k{&o, {}, genPrm(c), {}, false, o.name};
        for (auto i : id) {
            k.in.push_back(&pool[i]);
            k.text += " #" + to_string(i);
        }
        return k;
    }
    throw pbt::Discard{};
}
} // namespace

LAW(shared, 10, "operations on the same const Series at the same time") {
    std::vector<M> ms = genPool(c);
    std::deque<Serie> pool;
    for (auto &m : ms) {
        c.log("#", pool.size(), " = ", show(m));
        pool.push_back(build(c, m));
    }
    int k = (int)c.range(2, 4), len = (int)c.range(1, 4);
    bool same = c.chance(1, 2); // the threads run the same operations, on other inputs
    std::vector<std::vector<Call>> todo(k);
    for (int i = 0; i < k; ++i)
        for (int j = 0; j < len; ++j) {
            todo[i].push_back(genCall(c, pool, same && i ? todo[0][j].op : nullptr));
            c.log("thread ", i, ": ", todo[i][j].text, " (seed ", todo[i][j].p.seed, ", x ", todo[i][j].p.x, ", k ", todo[i][j].p.k, ")");
        }
    together(k, [&](int i) {
        for (auto &q : todo[i])
            q.ran = run(*q.op, q.in, q.p, q.got);
    });
    int ran = 0;
    for (int i = 0; i < k; ++i) {
        bool any = false;
        for (auto &q : todo[i]) {
            Res alone;
            bool r = run(*q.op, q.in, q.p, alone);
            CHECK(r == q.ran, q.text, " of thread ", i, ": ", q.ran ? "ran" : "did not run", " among other threads only");
            expectSameRes(alone, q.got, q.text + " of thread " + to_string(i) + ", run among other threads");
            any |= r && !alone.threw;
            if (alone.threw)
                c.label("an operation refused its inputs");
        }
        ran += any;
    }
    for (size_t i = 0; i < pool.size(); ++i)
        expectSame(pool[i], ms[i], "Serie #" + to_string(i) + " used by several threads", WITH_DIM);
    c.label(same ? "same operations" : "different operations");
    c.nontrivial(ran >= 2);
}

LAW(owned, 4, "each thread writes to its own copies of the same Series and data frame") {
    std::vector<M> ms = genPool(c);
    if (ms.empty())
        throw pbt::Discard{};
    std::deque<Serie> pool;
    df::Dataframe base;
    for (auto &m : ms) {
        base.add("s" + to_string(pool.size()), direct(m));
        c.log("#", pool.size(), " = ", show(m));
        pool.push_back(build(c, m));
    }
    const df::Dataframe &cbase = base;
    struct Step {
        int what;
        size_t from;
        uint64_t at;
        double v;
        Call call;
        Res got;
        bool ran;
    };
    int k = (int)c.range(2, 4);
    std::vector<std::vector<Step>> todo(k);
    for (int i = 0; i < k; ++i) {
        int len = (int)c.range(2, 6);
        for (int j = 0; j < len; ++j) {
            Step s{(int)c.below(8), (size_t)c.below(pool.size()), c.below(1 << 20), double(c.range(-64, 64)) / 8, {}, {}, false};
            c.log("thread ", i, ": step ", s.what, " on #", s.from, " at ", s.at, " value ", s.v);
            todo[i].push_back(s);
        }
    }
    c.nontrivial();
    // the script of a thread; the second run is made alone
    auto script = [&](int i) {
        Res r;
        Serie own(pool[todo[i][0].from]);
        df::Dataframe d(cbase);
        for (auto &s : todo[i]) {
            const Serie &src = pool[s.from];
            const std::string name = "s" + to_string(s.from);
            switch (s.what) {
            case 0:
                own = src;
                break;
            case 1:
                own = src.clone();
                break;
            case 2:
                if (own.size() > 0)
                    own.setScalar(s.at % own.size(), s.v);
                break;
            case 3:
                own.reCount(1 + s.at % 9);
                break;
            case 4:
                if (own.count() > 0)
                    own.setValue(s.at % own.count(), Array(own.itemSize(), s.v));
                break;
            case 5:
                d[name].asArray().back() = s.v;
                break;
            case 6:
                d.set(name, df::math::scale(cbase.get(name), s.v));
                r.put(double(d.contains(name)) + cbase.series().size());
                break;
            default:
                d.del(name);
                d.add(name, df::math::negate(src));
            }
            r.put(own);
        }
        for (auto &[n, s] : static_cast<const df::Dataframe &>(d).series())
            r.put(s);
        return r;
    };
    std::vector<Res> got(k);
    together(k, [&](int i) { got[i] = script(i); });
    for (int i = 0; i < k; ++i)
        expectSameRes(script(i), got[i], "the Series of thread " + to_string(i));
    for (size_t i = 0; i < pool.size(); ++i) {
        expectSame(pool[i], ms[i], "the shared Serie #" + to_string(i), WITH_DIM);
        expectSame(cbase.get("s" + to_string(i)), ms[i], "the shared data frame", WITH_DIM);
    }
}

LAW(lookups, 4, "a const data frame and a const attribute manager read by several threads") {
    uint32_t n = (uint32_t)c.range(1, 8), tri = (uint32_t)c.range(1, 6);
    df::Dataframe d;
    auto add = [&](const std::string &name, uint32_t z, uint32_t count) {
        M m;
        m.isz = z;
        m.n = count;
        m.dim = 3;
        m.v = genValues(c, size_t(count) * z, INTS | DYADIC | REAL);
        c.log(name, " = ", show(m));
        d.add(name, direct(m));
    };
    add("positions", 3, n);
    add("x1", 1, n);
    add("U", 3, n);
    add("stress", 6, n);
    if (c.flip())
        add("T", 9, n);
    Array t;
    for (uint32_t i = 0; i < tri * 3; ++i)
        t.push_back(double(c.below(n)));
    d.add("indices", Serie(3, t));
    c.log("indices = ", show(t, 3));
    c.nontrivial();
    const df::Dataframe &cd = d;
    df::Manager g(cd, {new df::Coordinates(), new df::Components(), new df::EigenValues(), new df::EigenVectors(), new df::Normals(),
                       new df::Area(), new df::Valence()});
    const df::Manager &cg = g;
    std::vector<std::string> names;
    for (auto &[nm, s] : cd.series())
        names.push_back(nm);
    names.push_back("nothing");
    int k = (int)c.range(2, 4);
    std::vector<uint64_t> start(k);
    for (auto &s : start)
        s = c.below(16);
    auto read = [&](int i) {
        Res r;
        for (size_t j = 0; j < names.size(); ++j) {
            const std::string &nm = names[(j + start[i]) % names.size()];
            r.put(double(cd.contains(nm)));
            r.put(cd.get(nm));
            r.put(cd[nm]);
        }
        const uint32_t sizes[] = {1, 2, 3, 6, 9};
        for (size_t j = 0; j < 5; ++j) {
            uint32_t z = sizes[(j + start[i]) % 5];
            for (auto &nm : cg.names(z)) {
                r.put(double(pbt::hashStr(nm) >> 12));
                r.put(double(cg.contains(z, nm)));
                r.put(cg.serie(z, nm));
            }
        }
        return r;
    };
    std::vector<Res> got(k);
    together(k, [&](int i) { got[i] = read(i); });
    for (int i = 0; i < k; ++i)
        expectSameRes(read(i), got[i], "what thread " + to_string(i) + " read");
}

LAW(functions, 4, "the same pipeline, partial function or composition called by several threads") {
    std::vector<M> ms = genPool(c);
    if (ms.empty())
        throw pbt::Discard{};
    std::deque<Serie> pool;
    for (auto &m : ms) {
        c.log("#", pool.size(), " = ", show(m));
        pool.push_back(build(c, m));
    }
    double x = double(c.range(-12, 12)) / 4;
    uint32_t cores = (uint32_t)c.range(1, 4);
    const auto scale = df::math::make_scale(x);
    const auto pipe = df::make_pipe(scale, [](const Serie &s) { return df::math::add(s, s); });
    const auto comp = df::utils::compose([](const Serie &s) { return df::math::negate(s); }, scale);
    const auto halve = [x](const Serie &s) { return df::map([x](const Array &v, uint32_t) { return Array{v[0] * x, v.back()}; }, s); };
    int k = (int)c.range(2, 4);
    std::vector<std::vector<size_t>> todo(k);
    for (int i = 0; i < k; ++i) {
        todo[i].resize((size_t)c.range(1, 3));
        std::string t;
        for (auto &j : todo[i]) {
            j = c.below(pool.size());
            t += " #" + to_string(j);
        }
        c.log("thread ", i, ":", t);
    }
    c.log("scale ", x, ", ", cores, " cores");
    c.nontrivial();
    auto use = [&](int i) {
        Res r;
        for (auto j : todo[i]) {
            const Serie &s = pool[j];
            r.put(scale(s));
            r.put(pipe(s));
            r.put(comp(s));
            r.put(df::pipe(s, pipe, comp));
            r.put(s.pipe(halve, scale));
            r.put(df::utils::parallel_execute(halve, s, cores));
            r.put(df::utils::parallel_execute([&](const Serie &p) { return pipe(p); }, s, cores));
        }
        return r;
    };
    std::vector<Res> got(k);
    together(k, [&](int i) { got[i] = use(i); });
    for (int i = 0; i < k; ++i)
        expectSameRes(use(i), got[i], "the results of thread " + to_string(i));
    for (size_t i = 0; i < pool.size(); ++i)
        expectSame(pool[i], ms[i], "Serie #" + to_string(i) + " used by several threads", WITH_DIM);
}

LAW(jobs, 4, "operations called by the jobs of parallel_execute") {
    std::vector<M> ms = genPool(c);
    if (ms.empty())
        throw pbt::Discard{};
    std::deque<Serie> pool;
    for (auto &m : ms) {
        c.log("#", pool.size(), " = ", show(m));
        pool.push_back(build(c, m));
    }
    const Serie &s = pool[c.below(pool.size())];
    std::vector<Call> todo;
    int len = (int)c.range(1, 3);
    for (int j = 0; j < len; ++j) {
        todo.push_back(genCall(c, pool));
        c.log("each job: ", todo[j].text, " (seed ", todo[j].p.seed, ", x ", todo[j].p.x, ", k ", todo[j].p.k, ")");
    }
    uint32_t cores = (uint32_t)c.range(2, 6);
    c.log("on ", cores, " cores, ", s.count(), " items");
    std::vector<Res> want;
    for (auto &q : todo) {
        want.emplace_back();
        q.ran = run(*q.op, q.in, q.p, want.back());
    }
    std::mutex mx;
    std::string bad;
    std::atomic<int> calls{0};
    Serie got = df::utils::parallel_execute(
        [&](const Serie &part) {
            for (size_t j = 0; j < todo.size(); ++j) {
                Res r;
                bool ran = run(*todo[j].op, todo[j].in, todo[j].p, r);
                ++calls;
                try {
                    CHECK(ran == todo[j].ran, todo[j].text, " did not run");
                    expectSameRes(want[j], r, todo[j].text + " in a job");
                } catch (const pbt::Failure &f) {
                    std::lock_guard<std::mutex> l(mx);
                    bad = f.msg;
                }
            }
            return df::math::negate(part);
        },
        s, cores);
    CHECK(bad.empty(), bad);
    expectSame(got, modelOf(df::math::negate(s)), "the result of the jobs", WITH_DIM);
    c.nontrivial(calls > (int)todo.size());
}

PBT_MAIN("C32",
         "A case is a pool of Series and two to four threads (or the jobs of a parallel execution) released together, each "
         "calling operations of the table of about 90 on the shared const Series, writing to its own copies, reading a shared "
         "const data frame and attribute manager, or calling shared pipelines; ThreadSanitizer reports any unordered access, "
         "and every result is compared bit for bit with the same calls made alone. Non-trivial: at least two threads (jobs) "
         "ran an operation to its end.",
         12000, 250000)
