// C34: when memory runs out, operations fail cleanly.
#include "failures.hpp"

namespace {
bool excluded(const char *name) { // streams hide memory failures; decomposers are handed over as bare pointers
    std::string n = name;
    return n == "print" || n.find("Manager") != n.npos;
}
} // namespace

LAW(memory, 8, "memory runs out at a chosen allocation of an operation") {
    Pool pool(c, 6);
    auto &tab = table();
    auto &hig = higher();
    size_t which = c.below(tab.size() + hig.size());
    Prm p = genPrm(c);
    In in;
    std::string text;
    bool user = which >= tab.size();
    const char *name = user ? hig[which - tab.size()].name : tab[which].name;
    if (excluded(name))
        throw pbt::Discard{};
    text = name;
    if (user)
        in = pool.inputs(c, hig[which - tab.size()], text);
    else
        in = pool.inputs(c, tab[which], text);
    Hook h;
    auto call = [&](Res &r) {
        if (user)
            hig[which - tab.size()].fn(in, p, h, r);
        else
            tab[which].fn(in, p, r);
    };
    Res want;
    Outcome first = observe(-1, [&] {
        Res r;
        call(r);
    });
    if (!std::strcmp(first.what, "skip"))
        throw pbt::Discard{};
    if (!*first.what)
        call(want);
    Outcome warm = observe(-1, [&] {
        Res r;
        call(r);
    });
    const std::string what = name;
    c.log(text, " (seed ", p.seed, ", x ", p.x, ", k ", p.k, "): ", warm.allocations, " allocations", *warm.what ? ", refused" : "");
    CHECK(warm.leaked == 0, what, " left ", warm.leaked, " blocks of memory behind");
    CHECK(!std::strcmp(first.what, warm.what), what, " ended with ", first.what, ", then with ", warm.what);
    c.nontrivial(warm.allocations > 0);
    for (int t = 0; t < 3; ++t) {
        long k = (long)c.below(warm.allocations + 1);
        c.log("allocation ", k, " fails");
        bool done = false, same = true;
        Res got;
        Outcome o = observe(k, [&] {
            Res r;
            call(r);
            failAt = -1;
            done = true;
            same = r.s.size() == want.s.size() && sameBits(r.num, want.num);
            for (size_t i = 0; same && i < r.s.size(); ++i)
                same = sameSerie(r.s[i], want.s[i]);
        });
        if (done)
            CHECK(same, what, " gave a wrong result when memory ran out at allocation ", k);
        else
            CHECK(!std::strcmp(o.what, "bad_alloc") || (*o.what && std::strstr(what.c_str(), "parallel")) || (*o.what && !std::strcmp(o.what, warm.what)), what, " ended with ", o.what,
                  " when memory ran out at allocation ", k);
        CHECK(o.leaked == 0, what, " left ", o.leaked, " blocks of memory behind when memory ran out at allocation ", k);
        c.label(done ? "went on" : "ended with bad_alloc");
        pool.unchanged("memory ran out in " + what);
    }
    if (!*first.what) {
        Res again;
        call(again);
        expectSameRes(want, again, what + " after memory ran out");
    }
}

LAW(cache, 3, "memory runs out in a memoized function, which is used again") {
    Pool pool(c, 6);
    Prm p = genPrm(c);
    std::vector<size_t> todo((size_t)c.range(1, 4));
    std::string text;
    for (auto &i : todo) {
        i = c.below(pool.s.size());
        text += " " + show(pool.ms[i]);
    }
    c.log("calls on", text, " x ", p.x);
    auto one = [p](const Serie &s) { return df::math::scale(s, p.x); };
    std::string bad;
    auto script = [&] {
        auto f = df::utils::memoize(one);
        for (auto i : todo) {
            const Serie &s = pool.s[i];
            for (int t = 0; t < 3; ++t) {
                try {
                    Serie got = f(s);
                    Pause nothing;
                    Serie want = one(s);
                    if (!sameSerie(got, want))
                        bad = "gave " + show(modelOf(got)) + " instead of " + show(modelOf(want));
                } catch (const std::bad_alloc &) {
                }
            }
        }
    };
    Outcome warm = observe(-1, script);
    CHECK(bad.empty(), bad);
    warm = observe(-1, script);
    CHECK(warm.leaked == 0, "a memoized function left ", warm.leaked, " blocks of memory behind");
    c.nontrivial();
    for (int t = 0; t < 3; ++t) {
        long k = (long)c.below(warm.allocations + 1);
        c.log("allocation ", k, " of ", warm.allocations, " fails");
        Outcome o = observe(k, script);
        CHECK(bad.empty(), "after allocation ", k, " failed, a memoized function ", bad);
        CHECK(o.leaked == 0, "a memoized function left ", o.leaked, " blocks of memory behind when allocation ", k, " failed");
    }
}

LAW(writes, 6, "memory runs out while a Serie or a data frame is written to") {
    Pool pool(c, 6);
    struct Step {
        int what;
        size_t own, from;
        uint32_t at;
        double v;
    };
    std::vector<Step> steps;
    int len = (int)c.range(1, 5);
    for (int i = 0; i < len; ++i)
        steps.push_back({(int)c.below(11), (size_t)c.below(3), (size_t)c.below(pool.s.size()), (uint32_t)c.below(9), double(c.range(-50, 50)) / 4});
    for (auto &m : pool.ms)
        c.log("  ", show(m));
    for (auto &s : steps)
        c.log("step ", s.what, " to ", s.own, " from ", s.from, " at ", s.at, " value ", s.v);
    size_t b0 = c.below(pool.s.size());
    uint32_t n0 = (uint32_t)c.below(6);
    c.log("starting with ", b0, " and ", n0, " items");
    char bad[200] = "";
    auto consistent = [&](const Serie &s, const char *what) {
        size_t n = s.asArray().size();
        if (size_t(s.count()) * s.itemSize() != n || s.size() != n)
            std::snprintf(bad, sizeof bad, "%s has %u items of %u values but holds %zu values", what, s.count(), s.itemSize(), n);
    };
    long reached = 0;
    auto script = [&] { // a step that fails is given up, the next ones go on
        try {
            std::array<Serie, 3> own{Serie(pool.s[b0]), Serie(2, n0), Serie()};
            df::Dataframe d, e;
            d.add("x", pool.s[b0]);
            for (auto &s : steps) {
                ++reached;
                Serie &o = own[s.own];
                const Serie &src = pool.s[s.from];
                static const std::string names[] = {"x", "a name longer than the small strings hold", "y"};
                const std::string &nm = names[s.own];
                std::vector<M> kept;
                std::map<std::string, M> frames[2];
                auto state = [&](std::vector<M> &k, std::map<std::string, M> *f) {
                    for (auto &x : own)
                        k.push_back(modelOf(x));
                    for (auto &x : static_cast<const df::Dataframe &>(d).series())
                        f[0][x.first] = modelOf(x.second);
                    for (auto &x : static_cast<const df::Dataframe &>(e).series())
                        f[1][x.first] = modelOf(x.second);
                };
                {
                    Pause nothing;
                    state(kept, frames);
                }
                try {
                    switch (s.what) {
                    case 0:
                    case 1:
                        o = src;
                        break;
                    case 2:
                        o.reCount(s.at);
                        break;
                    case 3:
                        o = own[(s.own + 1) % 3];
                        break;
                    case 4:
                        if (o.count())
                            o.setValue(s.at % o.count(), Array(o.itemSize(), s.v));
                        break;
                    case 5:
                        d.add(nm, src);
                        break;
                    case 6:
                        d.setCount(s.at);
                        break;
                    case 7:
                        d.create(nm, 1 + s.at % 4, s.at);
                        break;
                    case 8:
                        e = d;
                        break;
                    case 9:
                        o = df::math::scale(o.isValid() ? o : src, s.v);
                        break;
                    default:
                        d.set(nm, o);
                    }
                } catch (const std::bad_alloc &) {
                    Pause nothing;
                    if (s.what == 6) { // the Series resized before the failure stay so; made again, the step completes
                        if (s.at)
                            d.setCount(s.at);
                        for (auto &x : static_cast<const df::Dataframe &>(d).series())
                            if (x.second.itemSize() && x.second.count() != s.at)
                                std::snprintf(bad, sizeof bad, "setCount(%u) made again after its failure left a Serie of %u items", s.at, x.second.count());
                    } else if (s.what != 8) { // the copy of a frame is left to the standard library
                        std::vector<M> now;
                        std::map<std::string, M> f[2];
                        state(now, f);
                        for (size_t i = 0; i < now.size(); ++i)
                            if (now[i].n != kept[i].n || now[i].isz != kept[i].isz || now[i].dim != kept[i].dim || !sameBits(now[i].v, kept[i].v))
                                std::snprintf(bad, sizeof bad, "a write that failed changed the Serie");
                        for (int i = 0; i < 2; ++i) {
                            if (f[i].size() != frames[i].size())
                                std::snprintf(bad, sizeof bad, "a write that failed left %zu names in a data frame of %zu", f[i].size(), frames[i].size());
                            else
                                for (auto &x : f[i])
                                    if (!frames[i].count(x.first) || !sameBits(x.second.v, frames[i][x.first].v) || x.second.isz != frames[i][x.first].isz)
                                        std::snprintf(bad, sizeof bad, "a write that failed changed a Serie of the data frame");
                        }
                    }
                }
                Pause nothing;
                for (auto &x : own)
                    consistent(x, "a Serie");
                for (auto *f : {&d, &e})
                    for (auto &x : static_cast<const df::Dataframe *>(f)->series())
                        consistent(x.second, "a Serie of a data frame");
                if (*bad)
                    return;
                for (auto &x : own)
                    for (uint32_t i = 0; i < x.count(); ++i) {
                        double last = x.asArray()[size_t(i + 1) * x.itemSize() - 1];
                        (void)last;
                    }
            }
        } catch (const std::bad_alloc &) { // the first objects
        }
    };
    Outcome warm = observe(-1, script);
    warm = observe(-1, script);
    CHECK(!*bad, "without any failure: ", bad);
    CHECK(warm.leaked == 0, "the steps left ", warm.leaked, " blocks of memory behind");
    c.log(warm.allocations, " allocations");
    c.nontrivial(warm.allocations > 2);
    for (int t = 0; t < 3; ++t) {
        long k = (long)c.below(warm.allocations + 1);
        c.log("allocation ", k, " fails");
        reached = 0;
        Outcome o = observe(k, script);
        CHECK(!*bad, "memory ran out in step ", reached - 1, " (allocation ", k, "): ", bad);
        CHECK(!*o.what, "the steps ended with ", o.what);
        CHECK(o.leaked == 0, "the steps left ", o.leaked, " blocks of memory behind when allocation ", k, " failed");
        pool.unchanged("memory ran out");
    }
}

PBT_MAIN("C34",
         "A case is an operation of the library, a memoized function or a history of writes to Series and data frames, in which the n-th "
         "allocation fails (three n for each case, chosen among the allocations counted in a run without failure). Non-trivial: there is "
         "such an allocation (three of them for a history).",
         90000, 1500000)
