// C24: parallel execution equals sequential execution in every schedule.
#include "model.hpp"
#include "all.hpp"
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>

namespace {
using ::show;
// Items are told apart by their first component, which is different in each.
double tag(uint32_t i) { return double(i) * 0.75 - 100; }
int64_t positionOf(double t) {
    double p = (t + 100) / 0.75;
    return p >= 0 && p < 1e9 && p == std::floor(p) ? int64_t(p) : -1;
}
M genTagged(Ctx &c, uint32_t maxCount) {
    M m = genM(c, {.prof = c.chance(1, 4) ? unsigned(ANY) : unsigned(FINITE), .maxCount = maxCount, .maxIsz = 9});
    for (uint32_t i = 0; i < m.n; ++i)
        m.v[size_t(i) * m.isz] = tag(i);
    return m;
}
uint32_t genCores(Ctx &c, uint32_t n) {
    switch (c.weighted({10, 3, 2, 2, 2, 1, 1})) {
    case 1:
        return 1;
    case 2:
        return std::min(48u, std::max(1u, n));
    case 3:
        return std::min(48u, n + 1);
    case 4:
        return (uint32_t)c.range(9, 17);
    case 5:
        return std::min(48u, n + (uint32_t)c.range(2, 9));
    case 6:
        return (uint32_t)c.range(18, 48);
    default:
        return (uint32_t)c.range(2, 8);
    }
}

// Orders the jobs of one execution: they wait for their turn to start working and to
// return.  Waits are bounded: an implementation running fewer jobs at a time is only
// left free to choose the order.
struct Gate {
    std::mutex mx;
    std::condition_variable cv;
    int mode = 0; // 0: free, 1: return in a chosen order, 2: start and return in chosen orders, 3: one after the other
    uint64_t seed = 0;
    size_t expected = 0;
    size_t arrived = 0, returned = 0;
    bool open = false; // waits given up
    struct J {
        uint64_t first;
        bool started = false, done = false;
    };
    std::vector<J> jobs;
    uint64_t prio(uint64_t first, int phase) const {
        uint64_t s = seed >> 4;
        switch (seed & 7) {
        case 0:
            return first; // in order
        case 1:
            return ~first; // reversed
        case 2: // the first one last
            return first == 0 ? ~0ull : first;
        default:
            return pbt::mix64(s ^ (phase * 977) ^ (first << 8));
        }
    }
    bool turn(uint64_t first, int phase) const {
        if (open)
            return true;
        if (arrived < expected)
            return false;
        for (auto &j : jobs) {
            if (phase == 1 ? j.started : j.done)
                continue;
            if (phase == 2 && !j.started && mode == 2)
                return false; // all start first
            if (j.first != first && prio(j.first, phase) < prio(first, phase))
                return false;
        }
        return true;
    }
    void wait(std::unique_lock<std::mutex> &l, uint64_t first, int phase) {
        if (!cv.wait_for(l, std::chrono::milliseconds(40), [&] { return turn(first, phase); })) {
            open = true;
            cv.notify_all();
        }
    }
    J &job(uint64_t first) {
        for (auto &j : jobs)
            if (j.first == first)
                return j;
        jobs.push_back({first});
        return jobs.back();
    }
    void begin(uint64_t first) {
        if (mode == 0)
            return;
        std::unique_lock<std::mutex> l(mx);
        job(first);
        ++arrived;
        cv.notify_all();
        if (mode >= 2) {
            wait(l, first, 1);
            if (mode == 3)
                return;
        }
        job(first).started = true;
        cv.notify_all();
    }
    void end(uint64_t first) {
        if (mode == 0)
            return;
        std::unique_lock<std::mutex> l(mx);
        if (mode != 3)
            wait(l, first, 2);
        job(first).started = true;
        job(first).done = true;
        ++returned;
        cv.notify_all();
    }
};

struct Oops { // not a std::exception
    int code;
};

struct Plan {
    uint64_t seed = 0;
    int kind = 0;
    uint32_t outIsz = 1;
    // faults, by position of an item
    std::map<uint32_t, int> faults; // 1 std exception, 2 other exception, 3 one item more, 4 one less, 5 nothing
    std::string text() const {
        std::string t = "function kind " + std::to_string(kind) + " to item size " + std::to_string(outIsz);
        for (auto &f : faults)
            t += ", fault " + std::to_string(f.second) + " in the job of item " + std::to_string(f.first);
        return t;
    }
};

struct Chunk {
    int64_t first = -1;
    uint32_t n = 0;
    bool consecutive = true;
};
struct Record {
    std::vector<Chunk> chunks = std::vector<Chunk>(512);
    std::atomic<size_t> used{0};
    std::atomic<bool> wrong{false}, threw{false};
    std::vector<Chunk> seen() const {
        std::vector<Chunk> r(chunks.begin(), chunks.begin() + std::min<size_t>(used.load(), 512));
        std::sort(r.begin(), r.end(), [](const Chunk &a, const Chunk &b) { return a.first < b.first; });
        return r;
    }
};

Serie compute(const Plan &p, const Serie &s) {
    switch (p.kind) {
    case 0: { // a function of the item written here
        M m = modelOf(s), r = M::empty(p.outIsz, m.dim);
        for (uint32_t i = 0; i < m.n; ++i) {
            uint64_t h = hashItem(p.seed, m.item(i), 0);
            Array a(p.outIsz);
            for (uint32_t j = 0; j < p.outIsz; ++j)
                a[j] = double(pbt::mix64(h + j) % 100003) / 7;
            r.push(a);
        }
        return direct(r);
    }
    case 1: // library operations
        return df::math::scale(s, 1.5);
    case 2:
        if (s.itemSize() == 1)
            return df::map([](double v, uint32_t) { return v * v - 1; }, s);
        return df::map([](const Array &v, uint32_t) { return Array{v.back(), v.front() * 3}; }, s);
    case 3:
        return df::math::add(s, s);
    case 4:
        return df::math::negate(s);
    default:
        return s;
    }
}

// What the library is given to run: item-wise, except for the planned faults.
struct Fun {
    Plan plan;
    std::shared_ptr<Gate> gate;
    std::shared_ptr<Record> rec;
    Serie operator()(const Serie &s) const {
        Chunk ch;
        ch.n = s.count();
        const uint32_t k = s.itemSize();
        for (uint32_t i = 0; i < s.count(); ++i) {
            int64_t p = positionOf(s.asArray()[size_t(i) * k]);
            if (i == 0)
                ch.first = p;
            ch.consecutive = ch.consecutive && p == ch.first + i;
        }
        size_t slot = rec->used.fetch_add(1, std::memory_order_relaxed);
        if (slot < rec->chunks.size())
            rec->chunks[slot] = ch;
        uint64_t id = ch.n ? uint64_t(ch.first) : 1000000 + slot;
        gate->begin(id);
        struct End {
            Gate &g;
            uint64_t id;
            ~End() { g.end(id); }
        } end{*gate, id};
        Serie r = compute(plan, s);
        int extra = 0;
        bool none = false;
        for (auto &f : plan.faults)
            if (ch.first >= 0 && f.first >= ch.first && f.first < ch.first + ch.n) {
                if (f.second == 1) {
                    rec->threw = true;
                    throw std::runtime_error("planned failure");
                }
                if (f.second == 2) {
                    rec->threw = true;
                    throw Oops{7};
                }
                if (f.second >= 6) {
                    rec->threw = true;
                    switch (f.second) {
                    case 6:
                        throw std::out_of_range("planned failure");
                    case 7:
                        throw std::bad_alloc();
                    case 8:
                        throw std::invalid_argument("planned failure");
                    default:
                        throw std::logic_error("planned failure");
                    }
                }
                extra += f.second == 3 ? 1 : f.second == 4 ? -1 : 0;
                none = none || f.second == 5;
            }
        if (none || extra != 0) {
            M m = modelOf(r);
            int64_t n = none ? 0 : std::max<int64_t>(0, int64_t(m.n) + extra);
            m.n = uint32_t(n);
            m.v.resize(size_t(m.n) * m.isz, 1.25);
            if (n != int64_t(s.count()))
                rec->wrong = true;
            return direct(m);
        }
        return r;
    }
};

std::shared_ptr<Gate> genGate(Ctx &c, uint32_t n, uint32_t cores) {
    auto g = std::make_shared<Gate>();
    g->mode = (int)c.weighted({2, 4, 4, 2});
    g->seed = c.below(1 << 16);
    g->expected = std::min(n, cores);
    if (n == 0 || cores == 1)
        g->mode = 0;
#ifdef __SANITIZE_THREAD__
    g->mode = 0; // the gate would order the accesses of the jobs
#endif
    return g;
}
void checkChunks(const Record &r, const M &m, uint32_t cores, const std::string &what) {
    auto ch = r.seen();
    int64_t at = 0;
    size_t used = 0;
    for (auto &x : ch) {
        if (x.n == 0)
            continue;
        ++used;
        CHECK(x.consecutive && x.first >= 0, what, ": a job was given items that are not consecutive, from ", x.first);
        CHECK(x.first == at, what, ": the jobs cover item ", x.first, " after item ", at - 1);
        at += x.n;
    }
    CHECK(at == m.n, what, ": the jobs process ", at, " items, expected ", m.n);
    CHECK(used <= cores, what, ": ", used, " jobs on ", cores, " cores");
}
Plan genPlan(Ctx &c) {
    Plan p;
    p.seed = c.below(1 << 16);
    p.kind = (int)c.weighted({6, 1, 2, 1, 1, 1});
    p.outIsz = c.chance(1, 3) ? 1 : (uint32_t)c.range(1, 9);
    return p;
}
} // namespace

LAW(same_as_sequential, 10, "any Serie, number of cores and completion order") {
    M m = genTagged(c, c.chance(1, 5) ? 3000 : 60);
    uint32_t cores = genCores(c, m.n);
    Plan p = genPlan(c);
    auto gate = genGate(c, m.n, cores);
    c.log("parallel_execute on ", cores, " cores, schedule mode ", gate->mode, " seed ", gate->seed, ", ", p.text());
    c.log("  of ", show(m));
    c.nontrivial(m.n > 1 && cores > 1);
    c.label(cores == 1 ? "one core" : cores > m.n ? "more cores than items" : cores == m.n ? "as many" : "fewer");
    Serie s = build(c, m);
    Serie want = compute(p, s);
    Fun f{p, gate, std::make_shared<Record>()};
    Serie got = df::utils::parallel_execute(f, s, cores);
    expectSame(got, modelOf(want), "the parallel result", m.n > 0);
    checkChunks(*f.rec, m, cores, "parallel_execute");
    expectSame(s, m, "the input after parallel_execute", WITH_DIM);
    if (gate->mode != 0 && gate->open)
        c.label("order not imposed");
    // again, with another order
    if (c.chance(1, 3)) {
        Fun g{p, genGate(c, m.n, cores), std::make_shared<Record>()};
        expectSame(df::utils::parallel_execute(g, s, cores), modelOf(want), "the second parallel result", m.n > 0);
        checkChunks(*g.rec, m, cores, "the second execution");
    }
}

LAW(faults, 8, "any set of failing jobs") {
    M m = genTagged(c, c.chance(1, 6) ? 1500 : 40);
    if (m.n < 2)
        m = M::make(1, {tag(0), tag(1), tag(2)}, m.dim);
    uint32_t cores = std::max(2u, genCores(c, m.n));
    Plan p = genPlan(c);
    int n = (int)c.weighted({0, 5, 4, 2});
    bool counts = c.flip();
    for (int k = 0; k < n; ++k) {
        uint32_t at = c.chance(1, 3) ? m.n - 1 : (uint32_t)c.below(m.n);
        p.faults[at] = counts ? (int)c.range(3, 5) : c.chance(1, 3) ? 2 : c.flip() ? 1 : (int)c.range(6, 9);
    }
    auto gate = genGate(c, m.n, cores);
    c.log("parallel_execute on ", cores, " cores, schedule mode ", gate->mode, " seed ", gate->seed, ", ", p.text());
    c.log("  of ", show(m));
    Serie s = build(c, m);
    Fun f{p, gate, std::make_shared<Record>()};
    bool threw = false;
    Serie got;
    try {
        got = df::utils::parallel_execute(f, s, cores);
    } catch (...) {
        threw = true;
    }
    bool bad = f.rec->threw || f.rec->wrong;
    c.nontrivial(bad);
    c.label(f.rec->threw ? "a job threw" : f.rec->wrong ? "wrong number of items" : "faults cancelled within a job");
    if (bad)
        CHECK(threw, "a job failed (", f.rec->threw ? "exception" : "wrong number of items",
              ") but parallel_execute returned a Serie of ", got.count(), " items");
    else
        CHECK(!threw, "no job failed but parallel_execute reported an error");
    expectSame(s, m, "the input after a failed execution", WITH_DIM);
    // nothing remains of the failure
    Plan q = p;
    q.faults.clear();
    Fun g{q, genGate(c, m.n, cores), std::make_shared<Record>()};
    expectSame(df::utils::parallel_execute(g, s, cores), modelOf(compute(q, s)), "the execution following a failed one",
               WITH_DIM);
}

LAW(nested, 2, "item-wise functions that run in parallel themselves") {
    M m = genTagged(c, 40);
    uint32_t a = (uint32_t)c.range(1, 5), b = (uint32_t)c.range(1, 5);
    Plan p = genPlan(c);
    c.log("parallel on ", a, " cores of parallel on ", b, " cores, ", p.text());
    c.log("  of ", show(m));
    c.nontrivial(m.n > 1 && a > 1 && b > 1);
    Serie s = build(c, m);
    Serie want = compute(p, s);
    auto inner = [p](const Serie &x) { return compute(p, x); };
    Serie got = df::utils::parallel_execute(
        [inner, b](const Serie &x) { return df::utils::parallel_execute(inner, x, b); }, s, a);
    expectSame(got, modelOf(want), "the nested parallel result", m.n > 0);
}

LAW(concurrent, 2, "several executions at the same time") {
    int k = (int)c.range(2, 4);
    std::vector<M> ms;
    std::vector<Plan> ps;
    std::vector<uint32_t> cores;
    for (int i = 0; i < k; ++i) {
        ms.push_back(genTagged(c, 60));
        ps.push_back(genPlan(c));
        cores.push_back((uint32_t)c.range(1, 6));
        c.log("on ", cores[i], " cores, ", ps[i].text(), " of ", show(ms[i]));
    }
    c.nontrivial();
    std::vector<Serie> in, got(k);
    for (auto &m : ms)
        in.push_back(direct(m));
    std::vector<std::thread> th;
    std::vector<std::string> err(k);
    for (int i = 0; i < k; ++i)
        th.emplace_back([&, i] {
            try {
                Plan p = ps[i];
                got[i] = df::utils::parallel_execute([p](const Serie &x) { return compute(p, x); }, in[i], cores[i]);
            } catch (const std::exception &e) {
                err[i] = e.what();
            }
        });
    for (auto &t : th)
        t.join();
    for (int i = 0; i < k; ++i) {
        CHECK(err[i].empty(), "execution ", i, " failed: ", err[i]);
        expectSame(got[i], modelOf(compute(ps[i], in[i])), "execution " + std::to_string(i) + " of several at a time",
                   ms[i].n > 0);
    }
}

LAW(no_cores, 1, "zero cores is refused") {
    M m = genTagged(c, 30);
    c.log("parallel_execute on 0 cores of ", show(m));
    c.nontrivial(m.n > 0);
    Serie s = build(c, m);
    CHECK(throws([&] { df::utils::parallel_execute([](const Serie &x) { return x; }, s, 0); }),
          "parallel_execute on 0 cores was not refused");
}

PBT_MAIN("C24", "a Serie of at least two items is executed on at least two cores, or a job fails", 18000, 150000)
