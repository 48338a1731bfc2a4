// C24: parallel_execute.h can be included before the other operations.
#include <dataframe/functional/utils/parallel_execute.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/functional/utils/reject.h>
df::Serie probe(const df::Serie &s) {
    return df::utils::parallel_execute([](const df::Serie &x) { return df::utils::reject([](double v, uint32_t) { return v > 2; }, x); }, s, 2);
}
