// Runtime side of the contracts: the same pre/postconditions evaluated on the compiled real code.
// Case N of seed S is reproducible:  harness --seed S --case N
#pragma once
#ifndef GOOSEFEM_ENABLE_ASSERT
#define GOOSEFEM_ENABLE_ASSERT
#endif
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>

#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace gfvh {

using U1 = xt::xtensor<size_t, 1>;
using U2 = xt::xtensor<size_t, 2>;
using U3 = xt::xtensor<size_t, 3>;
using D1 = xt::xtensor<double, 1>;
using D2 = xt::xtensor<double, 2>;
using D3 = xt::xtensor<double, 3>;
using D4 = xt::xtensor<double, 4>;
using D5 = xt::xtensor<double, 5>;
using D6 = xt::xtensor<double, 6>;

struct Fail : std::runtime_error {
    using std::runtime_error::runtime_error;
};

template <class T>
std::string str(const T& a)
{
    std::ostringstream s;
    s.precision(17);
    s << a;
    return s.str();
}

template <class E>
std::string arr(const E& e)
{
    std::ostringstream s;
    s.precision(17);
    s << "shape(";
    for (size_t i = 0; i < e.dimension(); ++i) {
        s << (i ? "," : "") << e.shape(i);
    }
    s << ")[";
    size_t n = 0;
    for (auto it = e.begin(); it != e.end(); ++it) {
        if (n == 400) {
            s << " ...";
            break;
        }
        s << (n++ ? " " : "") << *it;
    }
    s << "]";
    return s.str();
}

struct Case {
    uint64_t state;
    uint64_t n;      ///< case number
    uint64_t hash = 1469598103934665603ull;
    bool nontrivial = true;
    size_t checks = 0;
    std::ostringstream in;

    uint64_t next()
    {
        uint64_t z = (state += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    /// integer in [lo, hi]
    size_t i(size_t lo, size_t hi)
    {
        return hi <= lo ? lo : lo + next() % (hi - lo + 1);
    }
    bool coin(size_t k = 2)
    {
        return next() % k == 0;
    }
    double u()
    {
        return (double)(next() >> 11) / 9007199254740992.0;
    }
    double real(double lo = -1.0, double hi = 1.0)
    {
        return lo + (hi - lo) * u();
    }
    /// integer-valued double (exact in sums)
    double whole(int r = 50)
    {
        return (double)((int)i(0, 2 * r) - r);
    }
    void mix(const std::string& s)
    {
        for (unsigned char c : s) {
            hash = (hash ^ c) * 1099511628211ull;
        }
    }
    template <class T>
    void input(const std::string& k, const T& v)
    {
        std::string s = k + " = " + str(v) + "\n";
        in << s;
        mix(s);
    }
    template <class T>
    void inputa(const std::string& k, const T& v)
    {
        std::string s = k + " = " + arr(v) + "\n";
        in << s;
        mix(s);
    }
    [[noreturn]] void fail(const std::string& what)
    {
        throw Fail(what);
    }
    void expect(const std::string& name, bool c, const std::string& detail = "")
    {
        checks++;
        if (!c) {
            fail("contract violated: " + name + (detail.empty() ? "" : " : " + detail));
        }
    }
    template <class A, class B>
    void eq(const std::string& name, const A& got, const B& expected)
    {
        checks++;
        if (!(got == expected)) {
            fail("contract violated: " + name + ": returned " + str(got) + " instead of " + str(expected));
        }
    }
    void close(const std::string& name, double got, double expected, double tol = 1e-9, double scale = 1.0)
    {
        checks++;
        if (!(std::abs(got - expected) <= tol * std::max({std::abs(expected), std::abs(scale), 1e-300}))) {
            fail("contract violated: " + name + ": returned " + str(got) + " instead of " + str(expected));
        }
    }
    template <class A, class B>
    void shape(const std::string& name, const A& a, const B& s)
    {
        checks++;
        bool ok = a.dimension() == s.size();
        size_t j = 0;
        for (auto& x : s) {
            ok = ok && j < a.dimension() && a.shape(j) == (decltype(a.shape(j)))x;
            j++;
        }
        if (!ok) {
            fail("contract violated: " + name + ": wrong shape: " + arr(a));
        }
    }
    /// all entries equal (and same shape)
    template <class A, class B>
    void same(const std::string& name, const A& got, const B& expected)
    {
        checks++;
        bool ok = got.dimension() == expected.dimension();
        for (size_t j = 0; ok && j < got.dimension(); ++j) {
            ok = got.shape(j) == expected.shape(j);
        }
        if (ok) {
            auto a = got.begin();
            for (auto b = expected.begin(); b != expected.end(); ++b, ++a) {
                if (!(*a == *b)) {
                    ok = false;
                    break;
                }
            }
        }
        if (!ok) {
            fail("contract violated: " + name + ":\n  returned " + arr(got) + "\n  expected " + arr(expected));
        }
    }
    template <class A, class B>
    void allclose(const std::string& name, const A& got, const B& expected, double tol = 1e-9)
    {
        checks++;
        bool ok = got.dimension() == expected.dimension();
        for (size_t j = 0; ok && j < got.dimension(); ++j) {
            ok = got.shape(j) == expected.shape(j);
        }
        if (ok) {
            double mx = 0;
            for (auto b = expected.begin(); b != expected.end(); ++b) {
                mx = std::max(mx, std::abs((double)*b));
            }
            auto a = got.begin();
            for (auto b = expected.begin(); b != expected.end(); ++b, ++a) {
                if (!(std::abs((double)*a - (double)*b) <= tol * std::max(mx, 1.0))) {
                    ok = false;
                    break;
                }
            }
        }
        if (!ok) {
            fail("contract violated: " + name + ":\n  returned " + arr(got) + "\n  expected " + arr(expected));
        }
    }

    template <class F>
    D1 fill1(size_t n, F f)
    {
        D1 r = xt::zeros<double>({n});
        for (size_t i = 0; i < n; ++i) {
            r(i) = f();
        }
        return r;
    }
    template <class A>
    void randomise(A& a, int r = 50)
    {
        for (auto it = a.begin(); it != a.end(); ++it) {
            *it = whole(r);
        }
    }
    template <class A>
    void randomreal(A& a, double lo = -1.0, double hi = 1.0)
    {
        for (auto it = a.begin(); it != a.end(); ++it) {
            *it = real(lo, hi);
        }
    }
    template <class A>
    void poison(A& a)
    {
        for (auto it = a.begin(); it != a.end(); ++it) {
            *it = 1e30 + (double)i(0, 1000);
        }
    }
};

/// random connectivity and DOF-table
struct Topo {
    size_t nelem, nne, nnode, ndim, ndof;
    U2 conn, dofs;
};

/// mode of the DOFs: 0 sequential, 1 tied (renumbered: all DOFs used), 2 arbitrary (with unused DOFs)
inline Topo topology(Case& c, int mode = -1, size_t maxnode = 9, size_t maxelem = 5)
{
    Topo t;
    t.nnode = c.i(1, maxnode);
    t.ndim = c.i(1, 3);
    t.nelem = c.i(1, maxelem);
    t.nne = c.i(1, 4);
    t.conn = xt::zeros<size_t>({t.nelem, t.nne});
    bool rep = c.coin(4);
    for (size_t e = 0; e < t.nelem; ++e) {
        for (size_t m = 0; m < t.nne; ++m) {
            t.conn(e, m) = c.i(0, t.nnode - 1);
            for (size_t tries = 0; !rep && tries < 20; ++tries) {
                bool dup = false;
                for (size_t l = 0; l < m; ++l) {
                    dup = dup || t.conn(e, l) == t.conn(e, m);
                }
                if (!dup) {
                    break;
                }
                t.conn(e, m) = c.i(0, t.nnode - 1);
            }
        }
    }
    t.dofs = xt::zeros<size_t>({t.nnode, t.ndim});
    if (mode < 0) {
        mode = (int)c.i(0, 2);
    }
    size_t n = t.nnode * t.ndim;
    if (mode == 0) {
        // random permutation of the DOF-numbers
        std::vector<size_t> p(n);
        for (size_t i = 0; i < n; ++i) {
            p[i] = i;
        }
        if (c.coin()) {
            for (size_t i = n; i-- > 1;) {
                std::swap(p[i], p[c.i(0, i)]);
            }
        }
        for (size_t m = 0; m < t.nnode; ++m) {
            for (size_t i = 0; i < t.ndim; ++i) {
                t.dofs(m, i) = p[m * t.ndim + i];
            }
        }
        t.ndof = n;
    }
    else {
        size_t k = c.i(1, n);
        std::set<size_t> used;
        for (size_t m = 0; m < t.nnode; ++m) {
            for (size_t i = 0; i < t.ndim; ++i) {
                t.dofs(m, i) = c.i(0, k - 1);
                used.insert(t.dofs(m, i));
            }
        }
        if (mode == 1) {
            std::map<size_t, size_t> ren;
            for (size_t d : used) {
                size_t j = ren.size();
                ren[d] = j;
            }
            for (size_t m = 0; m < t.nnode; ++m) {
                for (size_t i = 0; i < t.ndim; ++i) {
                    t.dofs(m, i) = ren[t.dofs(m, i)];
                }
            }
            t.ndof = used.size();
        }
        else {
            t.ndof = *used.rbegin() + 1;
        }
    }
    c.inputa("conn", t.conn);
    c.inputa("dofs", t.dofs);
    return t;
}

inline U1 subset(Case& c, size_t n)
{
    std::vector<size_t> r;
    size_t style = c.i(0, 3);
    for (size_t i = 0; i < n; ++i) {
        if (style == 0 ? false : style == 1 ? true : c.coin()) {
            r.push_back(i);
        }
    }
    // any order
    for (size_t i = r.size(); i-- > 1;) {
        std::swap(r[i], r[c.i(0, i)]);
    }
    U1 a = xt::zeros<size_t>({r.size()});
    std::copy(r.begin(), r.end(), a.begin());
    return a;
}

inline volatile uint64_t g_case = 0;
inline uint64_t g_seed = 0;

inline void on_signal(int s)
{
    char b[200];
    int n = snprintf(b, sizeof b, "\nGFVH-CRASH signal=%d case=%llu seed=%llu\n", s, (unsigned long long)g_case, (unsigned long long)g_seed);
    if (write(1, b, n)) {
    }
    _exit(3);
}

inline std::string json(const std::string& s)
{
    std::string r = "\"";
    for (char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += ch;
        }
        else if (ch == '\n') {
            r += "\\n";
        }
        else if ((unsigned char)ch < 32) {
            r += ' ';
        }
        else {
            r += ch;
        }
    }
    return r + "\"";
}

/// known: returns a key if the failure is a listed finding
template <class F>
int run(int argc, char** argv, F body, const char* rule)
{
    uint64_t seed = 1, ncase = 1000, only = ~0ull;
    double seconds = 10;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seed") {
            seed = strtoull(argv[i + 1], 0, 10);
        }
        if (a == "--cases") {
            ncase = strtoull(argv[i + 1], 0, 10);
        }
        if (a == "--case") {
            only = strtoull(argv[i + 1], 0, 10);
        }
        if (a == "--seconds") {
            seconds = atof(argv[i + 1]);
        }
    }
    g_seed = seed;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) {
        signal(s, on_signal);
    }
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    std::unordered_set<uint64_t> seen;
    size_t evals = 0, checks = 0, distinct = 0;
    std::vector<std::string> samples;
    for (uint64_t n = (only == ~0ull ? 0 : only); n < (only == ~0ull ? ncase : only + 1); ++n) {
        if (n > 20 && only == ~0ull && elapsed() > seconds) {
            break;
        }
        g_case = n;
        alarm(120);
        Case c;
        c.state = seed * 0x2545F4914F6CDD1Dull + n * 0x9E3779B97F4A7C15ull + 12345;
        c.n = n;
        c.next();
        std::string err;
        try {
            body(c);
        }
        catch (const Fail& e) {
            err = e.what();
        }
        catch (const std::exception& e) {
            err = std::string("exception on an input that satisfies the precondition: ") + e.what();
        }
        alarm(0);
        if (!err.empty()) {
            std::cout << "{\"fail\": " << json(err) << ", \"seed\": " << seed << ", \"case\": " << n << ", \"inputs\": " << json(c.in.str()) << "}" << std::endl;
            return 1;
        }
        evals++;
        checks += c.checks;
        if (c.nontrivial && c.checks && seen.insert(c.hash).second) {
            distinct++;
        }
        if (samples.size() < 2 && n >= 3 && c.in.str().size() < 1500) {
            samples.push_back(c.in.str());
        }
        if (only != ~0ull) {
            std::cout << "inputs:\n" << c.in.str() << std::endl;
        }
    }
    std::cout << "{\"evaluations\": " << evals << ", \"distinct_nontrivial\": " << distinct << ", \"checks\": " << checks << ", \"seconds\": " << elapsed() << ", \"rule\": " << json(rule) << ", \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) {
        std::cout << (i ? ", " : "") << json(samples[i]);
    }
    std::cout << "]}" << std::endl;
    return 0;
}

} // namespace gfvh

#define GFVH_MAIN(body, rule) \
    int main(int argc, char** argv) \
    { \
        return gfvh::run(argc, argv, body, rule); \
    }
