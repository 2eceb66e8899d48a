#include <harness.h>
#include <GooseFEM/Iterate.h>
using namespace gfvh;

static double residual(Case& c)
{
    static const double inf = std::numeric_limits<double>::infinity();
    switch (c.i(0, 9)) {
    case 0:
        return std::numeric_limits<double>::quiet_NaN();
    case 1:
        return c.coin() ? inf : -inf;
    case 2:
        return 0.0;
    case 3:
        return (double)c.i(0, 3);
    default:
        return c.real(0, 3);
    }
}

static void check(Case& c, const GooseFEM::Iterate::StopList& s, const std::vector<double>& e)
{
    auto bits = [](double a, double b) { return std::isnan(a) ? std::isnan(b) : a == b; };
    c.eq("length", s.data().size(), e.size());
    c.eq("length (get)", s.get().size(), e.size());
    for (size_t i = 0; i < e.size(); ++i) {
        c.expect("residual " + str(i), bits(s.data()[i], e[i]), str(s.data()[i]) + " instead of " + str(e[i]));
        c.expect("residual (get) " + str(i), bits(s.get()[i], e[i]));
    }
    bool desc = true;
    for (size_t i = 1; i < e.size(); ++i)
        desc = desc && !(e[i] > e[i - 1]);
    c.eq("descending", s.descending(), desc);
    double tols[] = {1, 3, residual(c), e[c.i(0, e.size() - 1)]};
    for (double tol : tols) {
        bool less = true;
        for (double r : e)
            less = less && r < tol;
        c.expect("all_less(" + str(tol) + ")", s.all_less(tol) == less, "returned " + str(s.all_less(tol)));
    }
}

static void body(Case& c)
{
    static const double inf = std::numeric_limits<double>::infinity();
    size_t n = c.i(1, 6);
    bool def = c.coin(5);
    if (def)
        n = 1;
    c.input("n", n);
    GooseFEM::Iterate::StopList s = def ? GooseFEM::Iterate::StopList() : GooseFEM::Iterate::StopList(n);
    std::vector<double> e(n, inf);
    check(c, s, e);
    bool tame = c.coin();
    for (size_t k = c.i(0, 25); k-- > 0;) {
        size_t how = c.i(0, 15);
        if (how == 0) {
            c.input("reset", "");
            s.reset();
            std::fill(e.begin(), e.end(), inf);
        }
        else if (how == 1) {
            n = c.i(1, 6);
            c.input("reset", n);
            s.reset(n);
            e.assign(n, inf);
        }
        else {
            double r = tame ? 0.25 * (double)c.i(0, 5) : residual(c);
            if (c.coin(3) && std::isfinite(e.back()))
                r = e.back() * c.real(0.5, 1);
            c.input("insert", r);
            s.roll_insert(r);
            e.erase(e.begin());
            e.push_back(r);
        }
        check(c, s, e);
    }
}

GFVH_MAIN(body, "random sequences of insertions (also infinity and not-a-number) and resets, random and border-line tolerances; non-trivial: always")
