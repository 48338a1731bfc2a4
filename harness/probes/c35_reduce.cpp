// C35: reducers of every kind can be given to reduce, its member form too, on a constant Serie.
#include <dataframe/Serie.h>
#include <dataframe/functional/reduce.h>
#include <functional>
double plain(double a, double v, uint32_t) { return a + v; }
template <class F> double all(F &f, const df::Serie &s) { return df::reduce(f, s, 1.) + s.reduce(f, 2.); }
double probe(const df::Serie &s) {
    int n = 0;
    auto changing = [n](double a, double v, uint32_t) mutable { return a + v * ++n; };
    auto noexc = [](double a, double v, int) noexcept { return a + v; };
    auto items = [](const Array &a, const Array &v, uint32_t) noexcept { return a[0] < v[0] ? a : v; };
    auto pointer = plain;
    std::function<double(double, double, uint32_t)> function = plain;
    return all(changing, s) + all(noexc, s) + all(pointer, s) + all(function, s) + all(plain, s) + df::reduce(items, s, Array{1}).count() +
           s.reduce(items, Array{1}).count();
}
