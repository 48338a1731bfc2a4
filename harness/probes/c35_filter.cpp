// C35: predicates of every kind can be given to filter, reject and cut.
#include <dataframe/Serie.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/reject.h>
#include <functional>
bool plain(double v, uint32_t) { return v > 2; }
template <class F> df::Serie all(F &f, const df::Serie &s) {
    df::Serie t = df::filter(f, s), u = df::utils::reject(f, t), v = df::utils::cut(f, u);
    return v.filter(f);
}
df::Serie probe(const df::Serie &s) {
    int n = 0;
    auto constant = [](double v, uint32_t) { return v > 2; };
    auto changing = [n](double v, uint32_t) mutable { return v > ++n; };
    auto noexc = [](const Array &v, uint32_t) noexcept { return v[0] > 2; };
    auto both = [n](Array v, size_t) mutable noexcept { return v[0] > ++n; };
    auto pointer = plain;
    std::function<bool(const Array &, uint32_t)> function = noexc;
    df::Serie t = all(constant, all(changing, all(noexc, all(both, all(pointer, all(function, s))))));
    return all(plain, t);
}
