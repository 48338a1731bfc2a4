// C03: if_then_else compiles with conditions and branches on numbers, and on items (as its documentation shows it).
#include <dataframe/Serie.h>
#include <dataframe/functional/conditional/if.h>
df::Serie probe(const df::Serie &s) {
    df::Serie t = df::cond::if_then_else(
        s, [](double v) { return v > 2; }, [](double v, uint32_t, const df::Serie &) { return v * 2; },
        [](double v, uint32_t, const df::Serie &) { return v / 2; });
    return df::cond::if_then_else(
        t, [](const Array &v) { return v[0] > 2; }, [](const Array &v, uint32_t, const df::Serie &) { return v; },
        [](const Array &v, uint32_t, const df::Serie &) { return v; });
}
