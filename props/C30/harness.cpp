#include <omp.h>
#define EIGEN_DONT_PARALLELIZE
#include <gomp.h>
#include <element.h>
#include <tied.h>
using namespace gfvh;
#ifndef GFV_TSAN
#define GFV_TSAN 0
#endif

static std::atomic<size_t> reports{0};
#if GFV_TSAN
extern "C" void __tsan_on_report(void*) { reports++; }
extern "C" const char* __tsan_default_options()
{
    return "report_bugs=1:exitcode=0:suppress_equal_stacks=0:suppress_equal_addresses=0:log_path=/dev/null";
}
#endif

/// evaluate with one thread, and with different schedules of several threads
struct Schedules {
    Case& c;
    size_t n = 0;
    bool exclusive = true;  ///< every entry is written by one iteration: writes of different threads are never benign
    template <class F>
    void operator()(const std::string& name, F f)
    {
        gomp::team = 1;
        auto ref = f();
        size_t k = GFV_TSAN ? 1 : 2;
        for (size_t i = 0; i < k; ++i) {
            gomp::team = (unsigned)c.i(2, GFV_TSAN ? 4 : 6);
            gomp::ordered = !GFV_TSAN;
            gomp::seed = c.next();
            size_t before = reports;
            auto r = f();
            std::string how = name + " with " + std::to_string(gomp::team) + " threads";
            gomp::team = 1;
            c.expect(how, !exclusive || reports == before, "threads access the same entry, at least one of them writes it (ThreadSanitizer)");
            c.allclose(how + " compared to one thread", r, ref, 1e-12);
        }
    }
};

template <class A>
static A filled(Case& c, const std::vector<size_t>& shape)
{
    typename A::shape_type s;
    std::copy(shape.begin(), shape.end(), s.begin());
    A a(s);
    c.poison(a);
    return a;
}

#define OUT(T, shape, call) \
    [&] { \
        T r = filled<T>(c, shape); \
        call; \
        return r; \
    }
#define RET(T, call) [&] { return T(call); }
using Sh = std::vector<size_t>;

/// element matrices of a symmetric, diagonally dominant, system
static D3 dominant(Case& c, const Topo& t, bool diagonal)
{
    size_t w = t.nne * t.ndim;
    D3 em = xt::zeros<double>({t.nelem, w, w});
    for (size_t e = 0; e < t.nelem; ++e)
        for (size_t i = 0; i < w; ++i) {
            em(e, i, i) = (double)c.i(200, 300);
            for (size_t j = 0; j < i && !diagonal; ++j)
                em(e, i, j) = em(e, j, i) = c.whole(3);
        }
    return em;
}

static void vectors(Case& c)
{
    Tied t = tied(c, GFV_TSAN ? 6 : 9, 5);
    bool unique = t.ndof == t.nnode * t.ndim;  // every DOF belongs to one node
    if (GFV_TSAN && c.coin()) {
        // no node in two elements
        c.input("elements", "disjoint");
        for (size_t e = 0; e < t.nelem; ++e)
            for (size_t m = 0; m < t.nne; ++m)
                t.conn(e, m) = (e * t.nne + m) % t.nnode;
    }
    std::set<size_t> used(t.conn.begin(), t.conn.end());
    bool disjoint = unique && used.size() == t.nelem * t.nne;
    std::set<size_t> inuse;
    for (size_t n : used)
        for (size_t i = 0; i < t.ndim; ++i)
            inuse.insert(t.dofs(n, i));
    bool all = inuse.size() == t.ndof;
    U1 iip = xt::zeros<size_t>({c.i(0, t.ndof)});
    std::vector<size_t> perm(t.ndof);
    for (size_t i = 0; i < t.ndof; ++i)
        perm[i] = i;
    for (size_t i = t.ndof; i-- > 1;)
        std::swap(perm[i], perm[c.i(0, i)]);
    for (size_t i = 0; i < iip.size(); ++i)
        iip(i) = perm[i];
    c.inputa("iip", iip);
    size_t np = iip.size(), nu = t.ndof - np;
    D1 d = xt::zeros<double>({t.ndof}), b = d;
    c.randomise(d), c.randomise(b);
    D2 n = xt::zeros<double>({t.nnode, t.ndim}), N = n, other = n;
    D3 e = xt::zeros<double>({t.nelem, t.nne, t.ndim}), E = e;
    c.randomise(N), c.randomise(E), c.randomise(other);
    for (size_t m = 0; m < t.nnode; ++m)
        for (size_t i = 0; i < t.ndim; ++i)
            n(m, i) = d(t.dofs(m, i));
    for (size_t k = 0; k < t.nelem; ++k)
        for (size_t m = 0; m < t.nne; ++m)
            for (size_t i = 0; i < t.ndim; ++i)
                e(k, m, i) = n(t.conn(k, m), i);
    D2 bn = n;
    for (size_t m = 0; m < t.nnode; ++m)
        for (size_t i = 0; i < t.ndim; ++i)
            bn(m, i) = b(t.dofs(m, i));
    Sh D{t.ndof}, NN{t.nnode, t.ndim}, EE{t.nelem, t.nne, t.ndim}, Uu{nu}, Pp{np};
    Schedules s{c};
    auto excl = [&](bool x) { s.exclusive = x; };
    size_t group = c.i(0, 7);
    c.input("group", group);
    if (group == 0) {
        GooseFEM::Vector v(t.conn, t.dofs);
        excl(unique);
        s("AsDofs(nodevec)", RET(D1, v.AsDofs(n)));
        s("asDofs(nodevec)", OUT(D1, D, v.asDofs(n, r)));
        excl(disjoint);
        s("AsDofs(elemvec)", RET(D1, v.AsDofs(e)));
        s("asDofs(elemvec)", OUT(D1, D, v.asDofs(e, r)));
        s("AsNode(elemvec)", RET(D2, v.AsNode(e)));
        s("asNode(elemvec)", OUT(D2, NN, v.asNode(e, r)));
        excl(true);
        s("AsNode(dofval)", RET(D2, v.AsNode(d)));
        s("asNode(dofval)", OUT(D2, NN, v.asNode(d, r)));
        s("AsElement(dofval)", RET(D3, v.AsElement(d)));
        s("asElement(dofval)", OUT(D3, EE, v.asElement(d, r)));
        s("AsElement(nodevec)", RET(D3, v.AsElement(N)));
        s("asElement(nodevec)", OUT(D3, EE, v.asElement(N, r)));
        s("AssembleDofs(nodevec)", RET(D1, v.AssembleDofs(N)));
        s("assembleDofs(nodevec)", OUT(D1, D, v.assembleDofs(N, r)));
        s("AssembleDofs(elemvec)", RET(D1, v.AssembleDofs(E)));
        s("assembleDofs(elemvec)", OUT(D1, D, v.assembleDofs(E, r)));
        s("AssembleNode(elemvec)", RET(D2, v.AssembleNode(E)));
        s("assembleNode(elemvec)", OUT(D2, NN, v.assembleNode(E, r)));
        s("Copy", RET(D2, v.Copy(N, other)));
        s("asElementVector", RET(D3, GooseFEM::Element::asElementVector(t.conn, N)));
        s("assembleNodeVector", RET(D2, GooseFEM::Element::assembleNodeVector(t.conn, E)));
    }
    if (group == 1) {
        GooseFEM::VectorPartitioned v(t.conn, t.dofs, iip);
        D1 u = xt::zeros<double>({nu}), p = xt::zeros<double>({np});
        c.randomise(u), c.randomise(p);
        s("AsDofs_u(dofval)", RET(D1, v.AsDofs_u(d)));
        s("asDofs_u(dofval)", OUT(D1, Uu, v.asDofs_u(d, r)));
        s("AsDofs_p(dofval)", RET(D1, v.AsDofs_p(d)));
        s("asDofs_p(dofval)", OUT(D1, Pp, v.asDofs_p(d, r)));
        s("DofsFromParitioned", RET(D1, v.DofsFromParitioned(u, p)));
        s("dofsFromParitioned", OUT(D1, D, v.dofsFromParitioned(u, p, r)));
        s("NodeFromPartitioned", RET(D2, v.NodeFromPartitioned(u, p)));
        s("nodeFromPartitioned", OUT(D2, NN, v.nodeFromPartitioned(u, p, r)));
        s("ElementFromPartitioned", RET(D3, v.ElementFromPartitioned(u, p)));
        s("elementFromPartitioned", OUT(D3, EE, v.elementFromPartitioned(u, p, r)));
        s("Copy_u", RET(D2, v.Copy_u(N, other)));
        s("copy_u", OUT(D2, NN, v.copy_u(N, r)));
        s("Copy_p", RET(D2, v.Copy_p(N, other)));
        s("copy_p", OUT(D2, NN, v.copy_p(N, r)));
        s("dofs_is_u", RET(D2, xt::cast<double>(v.dofs_is_u())));
        s("dofs_is_p", RET(D2, xt::cast<double>(v.dofs_is_p())));
        excl(unique);
        s("AsDofs_u(nodevec)", RET(D1, v.AsDofs_u(n)));
        s("asDofs_u(nodevec)", OUT(D1, Uu, v.asDofs_u(n, r)));
        s("AsDofs_p(nodevec)", RET(D1, v.AsDofs_p(n)));
        s("asDofs_p(nodevec)", OUT(D1, Pp, v.asDofs_p(n, r)));
        excl(disjoint);
        s("AsDofs_u(elemvec)", RET(D1, v.AsDofs_u(e)));
        s("asDofs_u(elemvec)", OUT(D1, Uu, v.asDofs_u(e, r)));
        s("AsDofs_p(elemvec)", RET(D1, v.AsDofs_p(e)));
        s("asDofs_p(elemvec)", OUT(D1, Pp, v.asDofs_p(e, r)));
    }
    if (group == 2) {
        GooseFEM::VectorPartitionedTyings v(t.conn, t.dofs, t.Cdu, t.Cdp, t.Cdi);
        s("copy_p", [&] {
            D1 r = b;
            v.copy_p(d, r);
            return r;
        });
        excl(unique);
        s("AsDofs_i", RET(D1, v.AsDofs_i(n)));
        s("asDofs_i", OUT(D1, Sh{t.ni}, v.asDofs_i(n, r, true)));
        s("asDofs_i, without tyings", OUT(D1, Sh{t.ni}, v.asDofs_i(n, r, false)));
    }
    if (group == 3) {
        GooseFEM::Matrix A(t.conn, t.dofs);
        GooseFEM::MatrixSolver<> S;
        D3 em = dominant(c, t, false);
        s("assemble", [&] {
            A.assemble(em);
            return D2(A.Todense());
        });
        s("Dot(dofval)", RET(D1, A.Dot(d)));
        excl(unique);
        s("Dot(nodevec)", RET(D2, A.Dot(n)));
        s("dot(nodevec)", OUT(D2, NN, A.dot(n, r)));
        if (all) {
            s("Solve(nodevec)", RET(D2, S.Solve(A, bn)));
            s("solve(nodevec)", OUT(D2, NN, S.solve(A, bn, r)));
            excl(true);
            s("Solve(dofval)", RET(D1, S.Solve(A, b)));
        }
    }
    if (group == 4) {
        GooseFEM::MatrixPartitioned A(t.conn, t.dofs, iip);
        GooseFEM::MatrixPartitionedSolver<> S;
        D3 em = dominant(c, t, false);
        s("assemble", [&] {
            A.assemble(em);
            return D2(A.Todense());
        });
        s("Dot(dofval)", RET(D1, A.Dot(d)));
        s("dot(dofval)", OUT(D1, D, A.dot(d, r)));
        s("Reaction(dofval)", RET(D1, A.Reaction(d, b)));
        s("reaction(dofval)", [&] {
            D1 r = b;
            A.reaction(d, r);
            return r;
        });
        excl(unique);
        s("Dot(nodevec)", RET(D2, A.Dot(n)));
        s("dot(nodevec)", OUT(D2, NN, A.dot(n, r)));
        s("Reaction(nodevec)", RET(D2, A.Reaction(n, bn)));
        s("reaction(nodevec)", [&] {
            D2 r = bn;
            A.reaction(n, r);
            return r;
        });
        if (all) {
            s("Solve(nodevec)", RET(D2, S.Solve(A, bn, n)));
            s("solve(nodevec)", [&] {
                D2 r = n;
                S.solve(A, bn, r);
                return r;
            });
            excl(true);
            s("Solve(dofval)", RET(D1, S.Solve(A, b, d)));
            s("solve(dofval)", [&] {
                D1 r = d;
                S.solve(A, b, r);
                return r;
            });
        }
    }
    if (group == 5) {
        GooseFEM::MatrixPartitionedTyings A(t.conn, t.dofs, t.Cdu, t.Cdp);
        GooseFEM::MatrixPartitionedTyingsSolver<> S;
        D3 em = dominant(c, t, false);
        s("assemble", [&] {
            A.assemble(em);
            return D2(A.Todense());
        });
        if (all) {
            s("Solve(dofval)", RET(D1, S.Solve(A, b, d)));
            s("solve(dofval)", [&] {
                D1 r = d;
                S.solve(A, b, r);
                return r;
            });
            excl(unique);
            s("Solve(nodevec)", RET(D2, S.Solve(A, bn, n)));
            s("solve(nodevec)", [&] {
                D2 r = n;
                S.solve(A, bn, r);
                return r;
            });
        }
    }
    if (group == 6) {
        GooseFEM::MatrixDiagonal A(t.conn, t.dofs);
        D3 em = dominant(c, t, true);
        s("assemble", [&] {
            A.assemble(em);
            return D1(A.data());
        });
        s("Dot(dofval)", RET(D1, A.Dot(d)));
        s("Dot(nodevec)", RET(D2, A.Dot(N)));
        s("dot(nodevec)", OUT(D2, NN, A.dot(N, r)));
        if (all) {
            s("Solve(dofval)", RET(D1, A.Solve(d)));
            s("solve(dofval)", OUT(D1, D, A.solve(d, r)));
            s("Solve(nodevec)", RET(D2, A.Solve(N)));
            s("solve(nodevec)", OUT(D2, NN, A.solve(N, r)));
        }
    }
    if (group == 7) {
        GooseFEM::MatrixDiagonalPartitioned A(t.conn, t.dofs, iip);
        D3 em = dominant(c, t, true);
        D1 u = xt::zeros<double>({nu}), p = xt::zeros<double>({np});
        c.randomise(u), c.randomise(p);
        s("assemble", [&] {
            A.assemble(em);
            return D1(A.data());
        });
        s("set", [&] {
            A.set(b);
            return D1(A.data());
        });
        A.assemble(em);
        s("Todense", RET(D2, A.Todense()));
        s("Dot(dofval)", RET(D1, A.Dot(d)));
        s("dot(dofval)", OUT(D1, D, A.dot(d, r)));
        s("Dot(nodevec)", RET(D2, A.Dot(N)));
        s("dot(nodevec)", OUT(D2, NN, A.dot(N, r)));
        s("Dot_u", RET(D1, A.Dot_u(u, p)));
        s("Dot_p", RET(D1, A.Dot_p(u, p)));
        s("Reaction(dofval)", RET(D1, A.Reaction(d, b)));
        s("Reaction(nodevec)", RET(D2, A.Reaction(N, other)));
        s("Reaction_p", RET(D1, A.Reaction_p(u, p)));
        if (all) {
            GooseFEM::VectorPartitioned v(t.conn, t.dofs, iip);
            // (the prescribed entries are not specified)
            s("Solve(dofval)", [&] {
                D1 r = A.Solve(b), o = xt::view(r, xt::keep(v.iiu()));
                return o;
            });
            s("solve(dofval)", [&] {
                D1 r = d;
                A.solve(b, r);
                return r;
            });
            s("Solve(nodevec)", [&] {
                D2 r = A.Solve(N);
                for (size_t m = 0; m < t.nnode; ++m)
                    for (size_t i = 0; i < t.ndim; ++i)
                        if (v.dofs_is_p()(m, i))
                            r(m, i) = 0;
                return r;
            });
            s("solve(nodevec)", [&] {
                D2 r = other;
                A.solve(N, r);
                return r;
            });
            s("Solve_u", RET(D1, A.Solve_u(u, p)));
            s("solve_u", OUT(D1, Uu, A.solve_u(u, p, r)));
        }
    }
}

template <class El>
static void element(Case& c)
{
    using T = Traits<El>;
    size_t nelem = c.i(2, 7);
    D3 x = geometry<El>(c, nelem), y = geometry<El>(c, nelem);
    Scheme sc = scheme<El>(c, c.i(0, 3));
    size_t nip = sc.w.size(), w = T::nne * T::nd, n = T::nd;
    if constexpr (T::k != 'q' && T::k != 'p' && T::k != 'a')
        n = c.i(1, 4);
    D3 u = xt::zeros<double>({nelem, T::nne, T::nd}), v = xt::zeros<double>({nelem, nip, n}), un = xt::zeros<double>({nelem, T::nne, n});
    D2 rho = xt::zeros<double>({nelem, nip});
    D4 sig = xt::zeros<double>({nelem, nip, T::td, T::td});
    D6 C = xt::zeros<double>({nelem, nip, T::td, T::td, T::td, T::td});
    c.randomreal(u), c.randomreal(un), c.randomreal(v), c.randomreal(rho), c.randomreal(sig), c.randomreal(C);
    El q = make<El>(x, sc);
    Sh ten{nelem, nip, T::td, T::td}, mat{nelem, w, w}, vec{nelem, T::nne, T::nd};
    Schedules s{c};
    s("gradients", [&] {
        El p = make<El>(x, sc);
        if constexpr (T::k == 'a')
            return D6(p.B());
        else
            return D4(p.GradN());
    });
    s("update_x", [&] {
        q.update_x(x);
        q.update_x(y);
        return D2(q.dV());
    });
    s("InterpQuad_vector", RET(D3, q.InterpQuad_vector(un)));
    s("interpQuad_vector", OUT(D3, (Sh{nelem, nip, n}), q.interpQuad_vector(un, r)));
    s("GradN_vector", RET(D4, q.GradN_vector(u)));
    s("gradN_vector", OUT(D4, ten, q.gradN_vector(u, r)));
    s("GradN_vector_T", RET(D4, q.GradN_vector_T(u)));
    s("gradN_vector_T", OUT(D4, ten, q.gradN_vector_T(u, r)));
    s("SymGradN_vector", RET(D4, q.SymGradN_vector(u)));
    s("symGradN_vector", OUT(D4, ten, q.symGradN_vector(u, r)));
    s("Int_N_vector_dV", RET(D3, q.Int_N_vector_dV(v)));
    s("int_N_vector_dV", OUT(D3, (Sh{nelem, T::nne, n}), q.int_N_vector_dV(v, r)));
    s("Int_N_scalar_NT_dV", RET(D3, q.Int_N_scalar_NT_dV(rho)));
    s("int_N_scalar_NT_dV", OUT(D3, mat, q.int_N_scalar_NT_dV(rho, r)));
    s("Int_gradN_dot_tensor2_dV", RET(D3, q.Int_gradN_dot_tensor2_dV(sig)));
    s("int_gradN_dot_tensor2_dV", OUT(D3, vec, q.int_gradN_dot_tensor2_dV(sig, r)));
    s("Int_gradN_dot_tensor4_dot_gradNT_dV", RET(D3, q.Int_gradN_dot_tensor4_dot_gradNT_dV(C)));
    s("int_gradN_dot_tensor4_dot_gradNT_dV", OUT(D3, mat, q.int_gradN_dot_tensor4_dot_gradNT_dV(C, r)));
}

static void body(Case& c)
{
    switch (c.i(0, 7)) {
    case 0:
        return element<G4::Quadrature>(c);
    case 1:
        return element<G4::QuadraturePlanar>(c);
    case 2:
        return element<G4::QuadratureAxisymmetric>(c);
    case 3:
        return element<G8::Quadrature>(c);
    default:
        return vectors(c);
    }
}

GFVH_MAIN(body, "random connectivity, DOF-table, partition, ties, geometry and data; number of threads and order of the threads random")
