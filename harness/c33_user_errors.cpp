// C33: the errors of functions given by the user reach the caller and leave nothing behind.
#include "failures.hpp"

LAW(user_errors, 8, "a function of the user throws at a chosen call") {
    Pool pool(c, c.chance(1, 8) ? 60 : 9);
    const HOp &op = c.pick(higher());
    std::string text = op.name;
    In in = pool.inputs(c, op, text);
    Prm p = genPrm(c);
    c.log(text, " (seed ", p.seed, ", x ", p.x, ", k ", p.k, ")");
    const std::string what = op.name;
    // without failure
    Res want;
    Hook quiet;
    op.fn(in, p, quiet, want);
    long n = quiet.calls;
    c.nontrivial(n > 0);
    if (n == 0)
        c.label("no call of the function");
    long at = (long)c.below(n + 1);
    int kind = (int)c.below(6);
    uint64_t id = c.below(1 << 16);
    c.log("call ", at, " of ", n, " throws ", expected(kind, id));
    // with the failure
    long calls = 0;
    Outcome o;
    {
        Hook h;
        h.at = at, h.kind = kind, h.id = id;
        o = observe(-1, [&] {
            Res r;
            op.fn(in, p, h, r);
        });
        calls = h.calls;
    }
    if (at < n) {
        // a job's standard error is reported by a message that quotes it
        std::string e = expected(kind, id), quoted = kind == 4 ? std::bad_alloc().what() : e.substr(e.find(' ') + 1);
        bool right = o.what == e || ((op.flags & PAR) && kind != 1 && kind != 5 && std::strstr(o.what, quoted.c_str()));
        CHECK(right, what, " ended with ", *o.what ? o.what : "no error", " instead of ", e);
        if (!(op.flags & PAR))
            CHECK(calls == at + 1, what, " called the function ", calls - at - 1, " more times after its failure");
    } else {
        CHECK(!*o.what, what, " ended with ", o.what, " although the function did not fail");
        CHECK(calls == n, what, " called the function ", calls, " times, then ", n, " times");
    }
    CHECK(o.leaked == 0, what, " left ", o.leaked, " blocks of memory behind after a failure");
    pool.unchanged("a failure in " + what);
    // the same operation again
    Res again;
    Hook h;
    op.fn(in, p, h, again);
    expectSameRes(want, again, what + " after a failure");
    CHECK(h.calls == n, what, " called the function ", h.calls.load(), " times after a failure, ", n, " times before");
    pool.unchanged("the call that follows a failure in " + what);
}

LAW(same_object, 4, "one function object used before, during and after the failure of what it wraps") {
    Pool pool(c, 9);
    Prm p = genPrm(c);
    size_t i = c.below(pool.s.size());
    const Serie &s = pool.s[i];
    c.log("of ", show(pool.ms[i]), " x ", p.x);
    Hook h; // counts from the start of each call
    auto f = [&h, p](const Serie &x) { h(); return df::math::scale(x, p.x); };
    auto g = [&h](const Array &v, uint32_t k) { h(); Array t = v; t[0] += k; return t; };
    auto memo = df::utils::memoize(f);
    auto pipe = df::make_pipe(f, f);
    auto comp = df::utils::compose(f, f);
    auto map = df::make_map(g);
    int which = (int)c.below(4), kind = (int)c.below(6);
    uint64_t id = c.below(1000);
    bool warm = c.flip();
    static const char *const names[] = {"a memoized function", "a pipeline", "a composition", "a make_map function"};
    c.log(names[which], warm ? ", used before" : "", ", fails with ", expected(kind, id));
    c.nontrivial();
    auto use = [&](const Serie &x) {
        switch (which) {
        case 0:
            return memo(x);
        case 1:
            return Serie(pipe(x));
        case 2:
            return Serie(comp(x));
        default:
            return Serie(map(x));
        }
    };
    auto plain = [&](const Serie &x) {
        switch (which) {
        case 0:
            return df::math::scale(x, p.x);
        case 1:
        case 2:
            return df::math::scale(df::math::scale(x, p.x), p.x);
        default:
            return df::map([](const Array &v, uint32_t k) { Array t = v; t[0] += k; return t; }, x);
        }
    };
    if (warm) {
        Serie other = df::math::negate(s);
        expectSame(use(other), modelOf(plain(other)), std::string(names[which]) + ", first use", WITH_DIM);
    }
    h.calls = 0;
    h.at = which == 0 ? 0 : which == 3 ? (long)c.below(s.count()) : (long)c.below(2);
    h.kind = kind, h.id = id;
    // a memoized function may have seen the values of s as those of -s (zeros): it is not called then
    bool cached = which == 0 && warm && sameBits(pool.ms[i].v, df::math::negate(s).asArray());
    if (!cached) {
        std::string e = ending([&] { use(s); });
        CHECK(e == expected(kind, id), names[which], " ended with ", e.empty() ? "no error" : e, " instead of ", expected(kind, id));
    }
    h.at = -1;
    h.calls = 0;
    for (int k = 0; k < 2; ++k)
        expectSame(use(s), modelOf(plain(s)), std::string(names[which]) + " after its failure", WITH_DIM);
    if (which == 0 && !cached)
        CHECK(h.calls == 1, "after a failure, a memoized function called its function ", h.calls.load(), " times for two calls");
    pool.unchanged("a failure");
}

PBT_MAIN("C33",
         "A case is an operation that calls functions of the user and a failure injected into it: the n-th call throws (an error of six "
         "kinds, standard or not), n being chosen among the calls counted in a run without failure. Non-trivial: there is such a call.",
         120000, 2500000)
