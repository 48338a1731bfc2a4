// C35: map takes functions of every kind, returning any number or an Array; sort takes comparators of numbers and of items.
#include <dataframe/Serie.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/utils/sort.h>
bool less(double a, double b) { return a < b; }
int whole(const Array &v, uint32_t) { return (int)v[0]; }
df::Serie probe(const df::Serie &s) {
    int n = 0;
    auto yes = [](const Array &v, uint32_t) noexcept { return v[0] > 2; };
    auto small = [n](const Array &v, uint32_t) mutable { return float(v[0] + ++n); };
    df::Serie t = df::utils::apply(small, df::map(yes, df::map(whole, s))).map(small);
    t = df::utils::sort(t, [](double a, double b) noexcept { return a > b; });
    t = df::utils::sort(df::utils::make_sort([](const Array &a, const Array &b) { return a > b; })(t), less);
    return t;
}
