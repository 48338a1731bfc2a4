// C24: parallel_execute.h can be used on its own.
#include <dataframe/functional/utils/parallel_execute.h>
df::Serie probe(const df::Serie &s) {
    return df::utils::parallel_execute([](const df::Serie &x) { return x; }, s, 2);
}
