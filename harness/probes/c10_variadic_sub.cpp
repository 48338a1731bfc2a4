// C10: sub takes any number of Series, add too.
#include <dataframe/Serie.h>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/sub.h>
df::Serie probe(const df::Serie &s) { return s.count() > 1 ? df::math::sub(s, s, s, s) : df::math::add(s, s, s, s); }
