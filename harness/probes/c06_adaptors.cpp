// C06: the adaptors of operations taking a Serie first can be made.
#include <dataframe/Serie.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/geo/insar.h>
df::Serie probe(const df::Serie &s) {
    auto d = df::algebra::make_dot(Array{1, 2, 3});
    auto i = df::geo::make_insar(Array{1, 2, 3});
    return s.count() > 1 ? d(s) : i(s);
}
