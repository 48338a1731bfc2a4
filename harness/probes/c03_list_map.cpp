// C03: map of a plain list compiles, constant or not, along with map of Series.
#include <dataframe/Serie.h>
#include <dataframe/functional/map.h>
#include <dataframe/utils/utils.h>
Array probe(Array a, const Array &b, const df::Serie &s) {
    Array r = df::map(a, [](double x) { return 2 * x; }), q = df::map(b, [](double x) { return 2 * x; });
    df::Serie t = df::map([](double x, uint32_t) { return x; }, s);
    return r.size() + q.size() > t.count() ? r : q;
}
