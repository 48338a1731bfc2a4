// C06: the member form of pipe takes one operation as well as several.
#include <dataframe/Serie.h>
#include <dataframe/functional/pipe.h>
df::Serie probe(const df::Serie &s) {
    auto f = [](const df::Serie &x) { return x; };
    return s.count() > 1 ? s.pipe(f) : s.pipe(f, f);
}
