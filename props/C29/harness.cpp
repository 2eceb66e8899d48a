#include <harness.h>
using namespace gfvh;

template <class T>
static void table(Case& c, const T& a, const std::string& what)
{
    c.inputa(what, a);
    std::set<size_t> v(a.begin(), a.end());
    c.eq("is_unique, " + what, GooseFEM::is_unique(a), v.size() == a.size());
    bool seq = true;
    for (size_t i = 0; i <= *v.rbegin(); ++i)
        seq = seq && v.count(i);
    c.eq("isSequential, " + what, GooseFEM::Element::isSequential(a), seq);
}

static void body(Case& c)
{
    size_t n = c.i(1, 6), m = c.i(1, 3), kind = c.i(0, 3);
    std::vector<size_t> v(n * m);
    for (size_t i = 0; i < v.size(); ++i)
        v[i] = kind == 0 ? c.i(0, 5) : i;
    if (kind >= 2)
        for (size_t i = v.size() - 1; i > 0; --i)
            std::swap(v[i], v[c.i(0, i)]);
    if (kind == 3) {
        // one repeated value or one hole
        size_t k = c.i(0, v.size() - 1);
        if (c.coin())
            v[k] = v[c.i(0, v.size() - 1)];
        else
            for (auto& x : v)
                x += x >= k;
    }
    xt::xtensor<size_t, 1> a1 = xt::zeros<size_t>({v.size()});
    xt::xtensor<size_t, 2> a2 = xt::zeros<size_t>({n, m});
    std::copy(v.begin(), v.end(), a1.begin());
    std::copy(v.begin(), v.end(), a2.begin());
    table(c, a1, "1-d");
    table(c, a2, "2-d");

    size_t nelem = c.i(0, 4), N = c.i(1, 5);
    xt::xtensor<double, 3> d = xt::zeros<double>({nelem, N, N});
    for (size_t e = 0; e < nelem; ++e)
        for (size_t i = 0; i < N; ++i)
            d(e, i, i) = c.real();
    c.input("nelem", nelem), c.input("N", N);
    c.expect("diagonal matrices", GooseFEM::Element::isDiagonal(d));
    for (size_t e = 0; e < nelem; ++e)
        for (size_t i = 0; i < N; ++i)
            for (size_t j = 0; j < N; ++j)
                if (i != j) {
                    std::string at = str(e) + ", " + str(i) + ", " + str(j);
                    for (double x : {1.0, -1.0, 1e-12, -1e-12, 1e-18, -1e-18}) {
                        d(e, i, j) = x;
                        c.eq("off-diagonal entry " + str(x) + " at " + at, GooseFEM::Element::isDiagonal(d), std::abs(x) < 1e-15);
                    }
                    d(e, i, j) = 0;
                }
}

GFVH_MAIN(body, "tables with repetitions, permutations, and permutations with one repetition or hole; one off-diagonal entry at every position; non-trivial: always")
