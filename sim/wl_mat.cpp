// P07, P08, P09, P15: kernels, assembly, prefix sum, reordering and scaling.
#include "wl.h"
#include <set>
#include "adjacency.hpp"
#include <cstdio>
#include "adjacency.hpp"
#include "blas/blas1.hpp"
#include "blas/matvecs.hpp"
#include "blockmatrices.hpp"
#include "helper_algorithms.hpp"
#include "levelschedule.hpp"
#include "reorderingscaling.hpp"
#include "scmatrixdefs.hpp"
#include "utils/prefix_sum.hpp"

// the column-stored product as it is defined (the header declares another signature)
namespace blasted {
template <typename scalar, typename index, int bs, StorageOptions stor>
void bcsc_gemv3(const CRawBSCMatrix<scalar, index> *const mat, const scalar a, const scalar *const __restrict xx, const scalar b,
                const scalar *const yy, scalar *const zz);
}

using namespace model;
using blasted::CRawBSRMatrix;
using blasted::RawBSRMatrix;

static void cmp(const char *what, const Params &p, const double *got, const Vec &ref, double tol) {
    sim::add_output(got, ref.size() * sizeof(double));
    int w = 0;
    if (!close(got, ref, tol, &w))
        badv("kernel-differs", "%s (%d block rows of %d, %d threads): entry %d is %.17g, expected %.17g", what, (int)get(p, "nb"), (int)get(p, "bs"),
            (int)get(p, "nthreads"), w, got[w], ref[w]);
}
static Vec junk(Rng &r, int n) {
    Vec v(n);
    for (auto &x : v) x = 1e3 * (r.unit() - 0.5);
    return v;
}
static double coef(Rng &r) {
    static const double special[] = {0, 1, -1};
    return r.chance(0.25) ? special[r.below(3)] : r.unit() * 2 - 1;
}

// ------------------------------------------------------------------ P07
static Params gen_p07(Rng &r, int) {
    Params p;
    int mode = (int)r.below(7);  // 0,1 view products; 2 column storage; 3,4 jacobi; 5 vectors and utilities; 6 owning matrix products
    if (mode == 1) mode = 0;
    p["mode"] = mode;
    SysOpt o;
    o.units = mode != 5;
    o.symmetric = r.chance(0.5);
    o.blocks = false;
    o.max1 = 24;
    o.huge1 = 700;
    o.phuge = 0.003;
    gen_sys_params(p, r, o);
    if (mode < 3 || mode > 4) { p["gexp"] = std::abs(get(p, "gexp")); p["rexp"] = 0; }
    gen_run_params(p, r, 1);
    p["nthreads"] = r.chance(0.02) ? r.range(8, 40) : r.range(1, 7);
    p["reduce"] = r.chance(0.3) ? 1 : 0;
    p["ndiag"] = r.chance(0.3);
    int bs = 1, rm = 0;
    if (mode == 0) { static const int c[][2] = {{1, 0}, {3, 1}, {4, 1}, {7, 1}, {3, 0}, {4, 0}, {5, 0}, {7, 0}}; auto &x = c[r.below(8)]; bs = x[0]; rm = x[1]; }
    if (mode == 2) { static const int c[][2] = {{1, 1}, {7, 1}, {3, 0}, {4, 0}, {5, 0}, {4, 0}}; auto &x = c[r.below(6)]; bs = x[0]; rm = x[1]; }
    if (mode == 3 || mode == 4) { static const int c[][2] = {{1, 0}, {1, 0}, {4, 1}, {4, 0}, {5, 0}}; auto &x = c[r.below(5)]; bs = x[0]; rm = x[1]; }
    if (mode == 5) { static const int c[][2] = {{1, 0}, {4, 1}, {4, 0}, {5, 0}}; auto &x = c[r.below(4)]; bs = x[0]; rm = x[1]; p["ndiag"] = 0; }
    if (mode == 6) { static const int c[][2] = {{1, 1}, {3, 1}, {7, 1}}; auto &x = c[r.below(3)]; bs = x[0]; rm = x[1]; }
    p["bs"] = bs;
    p["rm"] = rm;
    if (bs > 1) p["nb"] = get(p, "big") ? r.range(7, bs == 7 ? 60 : 120) : r.range(1, bs == 7 ? 6 : 8);
    p["alias"] = r.chance(0.3);
    p["ctol"] = r.below(2);
    p["steps"] = r.range(0, 12);
    p["relax"] = r.below(2);
    p["tolk"] = (int)r.below(4);
    return p;
}
template <class M> static void products(const M &m, const Sys &s, const Params &p, Rng &r, const Held &h) {
    Vec x = gen_vec(r, s.n()), y = gen_vec(r, s.n());
    double a = coef(r), b = coef(r);
    HVec hx(x), hy(y), z(junk(r, s.n()));
    { Sut in; m.apply(hx.d, z.d); }
    Vec ax = matvec(s, x);
    cmp("matrix-vector product", p, z.d, ax, 1e-12);
    Vec ref(s.n());
    for (int i = 0; i < s.n(); i++) ref[i] = a * ax[i] + b * y[i];
    if (get(p, "alias")) {
        HVec zy(y);
        { Sut in; m.gemv3(a, hx.d, b, zy.d, zy.d); }
        cmp("generalised product in place", p, zy.d, ref, 1e-12);
    } else {
        z.set(junk(r, s.n()));
        { Sut in; m.gemv3(a, hx.d, b, hy.d, z.d); }
        cmp("generalised product", p, z.d, ref, 1e-12);
        hy.check_unmodified("generalised product");
    }
    hx.check_unmodified("matrix-vector product");
    h.check_unmodified("matrix-vector product");
    { Sut in; if (m.dim() != s.n()) badv("kernel-differs", "matrix dimension is %d, expected %d", (int)m.dim(), s.n()); }
}
template <int bs, blasted::StorageOptions st> static void view_case(const Sys &s, const Params &p, Rng &r) {
    Held h(s, (int)get(p, "align", 64));
    if (r.chance(0.5)) {
        blasted::BSRMatrixView<double, int, bs, st> m(h.wrap());
        products(m, s, p, r, h);
    } else {
        blasted::BSRMatrixView<double, int, bs, st> m(s.nb, h.rp, h.ci, h.v, h.di);
        products(m, s, p, r, h);
    }
}
template <int bs> static void owned_case(const Sys &s, const Params &p, Rng &r) {
    Held h(s, 64);
    std::unique_ptr<blasted::BSRMatrix<double, int, bs>> m;
    int how = (int)r.below(3);
    {
        Sut in;
        if (how == 0) m.reset(new blasted::BSRMatrix<double, int, bs>(s.nb, h.rp, h.ci, h.v, h.di));
        else {
            if (how == 1) m.reset(new blasted::BSRMatrix<double, int, bs>(s.nb, h.ci, h.rp));
            else {
                m.reset(new blasted::BSRMatrix<double, int, bs>());
                m->setStructure(s.nb, h.ci, h.rp);
            }
            m->setAllZero();
            for (int bi = 0; bi < s.nb; bi++)
                for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++)
                    m->submitBlock(bi * bs, s.ci[k] * bs, h.v + (size_t)k * bs * bs, bs, bs);
        }
    }
    products(*m, s, p, r, h);
    std::unique_ptr<blasted::BSRMatrix<double, int, bs>> c;
    { Sut in; c.reset(new blasted::BSRMatrix<double, int, bs>(*m)); }
    products(*c, s, p, r, h);
    { Sut in; auto e = c->isEqual(*m, 1e-14); for (bool q : e) if (!q) badv("kernel-differs", "a copied matrix is not equal to its original"); }
    double f = 0.5 + r.unit();
    Sys s2 = s;
    for (auto &v : s2.v) v *= f;
    { Sut in; c->scaleAll(f); }
    products(*c, s2, p, r, h);
    for (int bi = 0; bi < s2.nb; bi++)
        for (int q = 0; q < bs * bs; q++) s2.v[(size_t)s2.di[bi] * bs * bs + q] = 0;
    { Sut in; c->setDiagZero(); }
    products(*c, s2, p, r, h);
    { Sut in; c->setAllZero(); }
    for (auto &v : s2.v) v = 0;
    products(*c, s2, p, r, h);
    { Sut in; c.reset(); m.reset(); }
}
template <int bs> static void csc_case(const Sys &s, const Params &p, Rng &r) {
    Held h(s, (int)get(p, "align", 64));
    CRawBSRMatrix<double, int> raw = h.raw();
    blasted::CRawBSCMatrix<double, int> c{nullptr, nullptr, nullptr, nullptr, 0};
    { Sut in; blasted::convert_BSR_to_BSC<double, int, bs>(&raw, &c); }
    if (c.nbcols != s.nb) badv("kernel-differs", "column conversion: %d columns instead of %d", c.nbcols, s.nb);
    int q = 0;
    for (int col = 0; col < s.nb; col++) {
        if (c.bcolptr[col] != q) badv("kernel-differs", "column conversion: wrong pointer of column %d", col);
        for (int row = 0; row < s.nb; row++) {
            int k = s.find(row, col);
            if (k < 0) continue;
            if (c.browind[q] != row) badv("kernel-differs", "column conversion: wrong row index in column %d", col);
            if (row == col && c.diagind[col] != q) badv("kernel-differs", "column conversion: wrong diagonal position of column %d", col);
            for (int e = 0; e < bs * bs; e++)
                if (c.vals[(size_t)q * bs * bs + e] != s.v[(size_t)k * bs * bs + e]) badv("kernel-differs", "column conversion: wrong value in column %d", col);
            q++;
        }
    }
    if (c.bcolptr[s.nb] != q) badv("kernel-differs", "column conversion: wrong end pointer");
    Vec x = gen_vec(r, s.n()), y = gen_vec(r, s.n());
    double a = coef(r), b = coef(r);
    if constexpr (bs == 7 || bs == 3 || bs == 4) {
        HVec hx(x), hy(y), z(junk(r, s.n()));
        void (*gemv)(const blasted::CRawBSCMatrix<double, int> *, double, const double *__restrict, double, const double *, double *) =
            &blasted::bcsc_gemv3<double, int, bs, bs == 7 ? blasted::RowMajor : blasted::ColMajor>;
        bool al = get(p, "alias");
        { Sut in; gemv(&c, a, hx.d, b, al ? z.d : hy.d, z.d); }
        Vec ax = matvec(s, x), ref(s.n());
        for (int i = 0; i < s.n(); i++) ref[i] = a * ax[i] + b * (al ? z.orig[i] : y[i]);
        cmp("column-stored product", p, z.d, ref, 1e-11);
        hx.check_unmodified("column-stored product");
        hy.check_unmodified("column-stored product");
    }
    if constexpr (bs == 1) {
        blasted::CRawBSCMatrix<double, int> o;
        { Sut in; o = blasted::convert_BSR_to_BSC_1based<double, int, 1>(&raw); }
        for (int i = 0; i <= s.nb; i++) if (o.bcolptr[i] != c.bcolptr[i] + 1) badv("kernel-differs", "1-based column pointer %d", i);
        for (int i = 0; i < s.nnzb(); i++)
            if (o.browind[i] != c.browind[i] + 1 || o.vals[i] != c.vals[i]) badv("kernel-differs", "1-based column entry %d", i);
        for (int i = 0; i < s.nb; i++) if (o.diagind[i] != c.diagind[i] + 1) badv("kernel-differs", "1-based diagonal position %d", i);
        { Sut in; blasted::alignedDestroyCRawBSCMatrix<double, int>(o); }
    }
    { Sut in; blasted::alignedDestroyCRawBSCMatrix<double, int>(c); }
    h.check_unmodified("column conversion");
}
static void jacobi_case(const Params &p) {
    Sys s = make_sys(p);
    Held h(s, (int)get(p, "align", 64));
    Rng r(get(p, "vseed", 1));
    Settings st;
    st.type = T_JACOBI;
    st.relax = get(p, "relax");
    Prec pc(h, st);
    pc.compute();
    auto di = diag_inv(s);
    Vec b = gen_rhs(r, s);
    HVec hb(b);
    {
        HVec z(junk(r, s.n()));
        pc.apply(hb, z);
        cmp("Jacobi application", p, z.d, apply_dinv(s, di, b), 1e-10);
    }
    int steps = (int)get(p, "steps");
    bool ctol = get(p, "ctol");
    static const double rt[] = {0.5, 1e-2, 1e-4, 0};
    double rtol = rt[get(p, "tolk") & 3], atol = r.chance(0.5) ? 0 : 1e-2, dtol = r.chance(0.5) ? 1e300 : 2.0;
    Vec x0 = gen_vec(r, s.n()), x = x0;
    double ref = 1;
    bool close_call = false;
    for (int k = 0; k < steps; k++) {
        Vec t = matvec(s, x);
        for (int i = 0; i < s.n(); i++) t[i] = b[i] - t[i];
        t = apply_dinv(s, di, t);
        double d = 0;
        for (int i = 0; i < s.n(); i++) { d += t[i] * t[i]; x[i] += t[i]; }
        d = std::sqrt(d);
        if (!ctol) continue;
        if (k == 0) ref = d;
        if (!(ref > 1e-8)) { close_call = true; break; }
        auto nearv = [](double u, double v) { return std::fabs(u - v) <= 1e-6 * (std::fabs(v) + 1e-9); };
        if (nearv(d, atol) || nearv(d / ref, rtol) || nearv(d / ref, dtol)) close_call = true;
        if (d < 1e-13 * maxabs(x)) close_call = true;  // rounding decides
        if (d < atol || d / ref < rtol || d / ref > dtol) break;
    }
    if (close_call) { sim::set_trivial(); return; }
    HVec hx(x0);
    pc.relax(hb, hx, steps, ctol, rtol, atol, dtol);
    cmp("Jacobi relaxation", p, hx.d, x, 1e-8);
    h.check_unmodified("Jacobi");
    hb.check_unmodified("Jacobi");
}
template <int bs> static void util_case(const Sys &s, const Params &p, Rng &r) {
    Held h(s, (int)get(p, "align", 64));
    CRawBSRMatrix<double, int> raw = h.raw();
    {
        HVec sc(junk(r, s.n()));
        { Sut in; blasted::getScalingVector<double, int, bs>(&raw, sc.d); }
        cmp("scaling vector", p, sc.d, scaling(s), 1e-13);
    }
    {
        blasted::RawBSRMatrix<double, int> c;
        { Sut in; c = blasted::copyRawBSRMatrix<double, int, bs>(raw); }
        bool ok = c.nbrows == s.nb && c.nnzb == s.nnzb() && c.nbstored == s.nnzb();
        for (int i = 0; ok && i < s.nb; i++) ok = c.browptr[i] == s.rp[i] && c.diagind[i] == s.di[i] && c.browendptr[i] == s.rp[i + 1];
        ok = ok && c.browptr[s.nb] == s.rp[s.nb];
        for (int k = 0; ok && k < s.nnzb(); k++) {
            ok = c.bcolind[k] == s.ci[k];
            for (int e = 0; ok && e < bs * bs; e++) ok = c.vals[k * bs * bs + e] == s.v[k * bs * bs + e];
        }
        if (!ok) badv("kernel-differs", "the copy of a matrix differs from its original");
        { Sut in; blasted::alignedDestroyRawBSRMatrix<double, int>(c); }
    }
    {
        std::vector<int> ptr, rows, loc;
        {
            Sut in;
            blasted::SRMatrixStorage<double, int> m(h.rp, h.ci, h.v, h.di, h.re, s.nb, s.nnzb(), s.nnzb(), bs);
            blasted::ColumnAdjacency<double, int> ca(m);
            sim::NoSut ns;
            ptr = ca.col_pointers();
            rows = ca.col_nonzero_rows();
            loc = ca.col_nonzero_locations();
        }
        bool ok = (int)ptr.size() == s.nb + 1 && (int)rows.size() == s.nnzb() && (int)loc.size() == s.nnzb() && ptr[0] == 0 && ptr[s.nb] == s.nnzb();
        std::vector<std::set<std::pair<int, int>>> cols(s.nb);
        for (int i = 0; i < s.nb; i++)
            for (int k = s.rp[i]; k < s.rp[i + 1]; k++) cols[s.ci[k]].insert({i, k});
        for (int j = 0; ok && j < s.nb; j++) {
            std::set<std::pair<int, int>> got;
            ok = ptr[j] <= ptr[j + 1];
            for (int k = ptr[j]; ok && k < ptr[j + 1]; k++) got.insert({rows[k], loc[k]});
            ok = ok && got == cols[j];
        }
        if (!ok) badv("kernel-differs", "the lists of the blocks of each column are wrong");
    }
    {
        for (int up = 0; up < 2; up++) {
            CRawBSRMatrix<double, int> t;
            { Sut in; t = up ? blasted::getUpperTriangularView<double, int>(raw) : blasted::getLowerTriangularView<double, int>(raw); }
            int entries = 0;
            for (int i = 0; i < s.nb; i++) entries += up ? s.rp[i + 1] - s.di[i] : s.di[i] + 1 - s.rp[i];
            if (t.nbrows != s.nb || t.nnzb != entries || t.nbstored != s.nnzb()) badv("kernel-differs", "triangular view: wrong size");
            for (int i = 0; i < s.nb; i++)
                if (t.diagind[i] != s.di[i]) badv("kernel-differs", "triangular view: wrong position of diagonal block %d", i);
            for (int i = 0; i < s.nb; i++) {
                int b0 = up ? s.di[i] : s.rp[i], e0 = up ? s.rp[i + 1] : s.di[i] + 1;
                std::vector<int> got, want;
                for (int k = t.browptr[i]; k < t.browendptr[i]; k++) got.push_back(t.bcolind[k]);
                for (int k = b0; k < e0; k++) want.push_back(s.ci[k]);
                if (got != want) badv("kernel-differs", "%s triangular view: wrong entries in row %d", up ? "upper" : "lower", i);
                for (int k = 0; k < (int)got.size(); k++)
                    for (int e = 0; e < bs * bs; e++)
                        if (t.vals[(size_t)(t.browptr[i] + k) * bs * bs + e] != s.v[(size_t)(b0 + k) * bs * bs + e])
                            badv("kernel-differs", "%s triangular view: wrong values in row %d", up ? "upper" : "lower", i);
            }
            Sut in;
            blasted::alignedDestroyRawBSRMatrixTriangularView<double, int>(reinterpret_cast<RawBSRMatrix<double, int> &>(t));
        }
    }
    {
        int n = (int)r.below(40);
        std::unique_ptr<blasted::device_vector<double>> v;
        double m = 0, got;
        {
            Sut in;
            v.reset(new blasted::device_vector<double>(n));
        }
        for (auto &x : *v) { x = r.unit() - 0.5; if (r.chance(0.3)) x *= 0.01; m = std::max(m, std::fabs(x)); }
        { Sut in; got = blasted::maxnorm(*v); }
        if (!(std::fabs(got - m) <= 1e-300)) badv("kernel-differs", "maximum norm of %d entries is %.17g, expected %.17g", n, got, m);
        { Sut in; v.reset(); }
    }
    {
        Settings st;
        st.type = T_NOPREC;
        Prec pc(h, st);
        pc.compute();
        Vec x = gen_vec(r, s.n());
        HVec hx(x), z(junk(r, s.n()));
        pc.apply(hx, z);
        cmp("identity preconditioner", p, z.d, x, 0);
        hx.check_unmodified("identity preconditioner");
    }
    h.check_unmodified("matrix utilities");
}
static void body_p07(const Params &p) {
    int mode = (int)get(p, "mode"), bs = (int)get(p, "bs", 1);
    bool rm = get(p, "rm");
    if (mode == 3 || mode == 4) { jacobi_case(p); return; }
    Sys s = make_sys(p);
    Rng r(get(p, "vseed", 1));
    if (mode == 0) {
        if (bs == 1) {
            Held h(s, (int)get(p, "align", 64));
            if (r.chance(0.5)) { blasted::CSRMatrixView<double, int> m(h.wrap()); products(m, s, p, r, h); }
            else { blasted::CSRMatrixView<double, int> m(s.nb, h.rp, h.ci, h.v, h.di); products(m, s, p, r, h); }
        } else if (rm) {
            if (bs == 3) view_case<3, blasted::RowMajor>(s, p, r);
            if (bs == 4) view_case<4, blasted::RowMajor>(s, p, r);
            if (bs == 7) view_case<7, blasted::RowMajor>(s, p, r);
        } else {
            if (bs == 3) view_case<3, blasted::ColMajor>(s, p, r);
            if (bs == 4) view_case<4, blasted::ColMajor>(s, p, r);
            if (bs == 5) view_case<5, blasted::ColMajor>(s, p, r);
            if (bs == 7) view_case<7, blasted::ColMajor>(s, p, r);
        }
    } else if (mode == 2) {
        if (bs == 1) csc_case<1>(s, p, r);
        if (bs == 3) csc_case<3>(s, p, r);
        if (bs == 4) csc_case<4>(s, p, r);
        if (bs == 5) csc_case<5>(s, p, r);
        if (bs == 7) csc_case<7>(s, p, r);
    } else if (mode == 5) {
        if (bs == 1) util_case<1>(s, p, r);
        if (bs == 4) util_case<4>(s, p, r);
        if (bs == 5) util_case<5>(s, p, r);
    } else {
        if (bs == 1) owned_case<1>(s, p, r);
        if (bs == 3) owned_case<3>(s, p, r);
        if (bs == 7) owned_case<7>(s, p, r);
    }
}

// ------------------------------------------------------------------ P08
static Params gen_p08(Rng &r, int) {
    Params p;
    static const int bss[] = {1, 1, 3, 7};
    p["bs"] = bss[r.below(4)];
    p["rm"] = 1;
    p["nb"] = r.range(1, 4);
    if (r.chance(0.004)) { p["nb"] = r.range(5, p["bs"] == 7 ? 8 : p["bs"] == 3 ? 16 : 40); p["big"] = 1; }
    else if (r.chance(0.0004)) { p["nb"] = p["bs"] == 1 ? r.range(41, 100) : r.range(17, 24); p["big"] = 2; }   // very long rows
    static const int pats[] = {P_FULL, P_TRI, P_ARROW, P_RAND_SYM, P_RAND_NONSYM, P_BAND};
    p["pat"] = pats[r.below(6)];
    p["dens"] = r.range(20, 80);
    p["mseed"] = (int64_t)(r.next() >> 34);
    p["hseed"] = (int64_t)(r.next() >> 34);
    p["eb"] = r.range(1, 4);           // size of the element blocks when assembling a CSR matrix
    if (get(p, "big") == 2) p["nb"] /= p["bs"] == 1 ? p["eb"] : 1;
    p["apps"] = r.range(2, 4);
    p["nops"] = r.range(2, 10);
    p["hot"] = r.chance(0.6);          // contributions concentrate on few places
    p["nthreads"] = r.range(1, 3);
    p["how"] = (int)r.below(3);
    p["poison"] = (int64_t)r.below(5);
    p["mid"] = r.below(2);
    p["subm"] = r.below(2);
    return p;
}
struct Upd { bool diag; int i, j, bi, bj; std::vector<double> buf; };
template <int bs> static void assemble(const Params &p) {
    Sys pat = make_sys(p);
    Sys s;  // structure that is really assembled
    int eb = (int)get(p, "eb", 1);
    if (bs == 1) {
        // expand an element-block pattern to rows
        s.nb = pat.nb * eb; s.bs = 1; s.rm = true;
        s.rp.push_back(0);
        for (int bi = 0; bi < pat.nb; bi++)
            for (int a = 0; a < eb; a++) {
                for (int k = pat.rp[bi]; k < pat.rp[bi + 1]; k++)
                    for (int b = 0; b < eb; b++) {
                        int col = pat.ci[k] * eb + b;
                        if (col == bi * eb + a) s.di.push_back((int)s.ci.size());
                        s.ci.push_back(col);
                    }
                s.rp.push_back((int)s.ci.size());
            }
    } else {
        s = pat;
        eb = bs;
    }
    s.v.assign((size_t)s.nnzb() * bs * bs, 0.0);
    Held h(s, 64);
    typedef blasted::BSRMatrix<double, int, bs> M;
    std::unique_ptr<M> m;
    int how = (int)get(p, "how");
    {
        Sut in;
        if (how == 0) m.reset(new M(s.nb, h.rp, h.ci, h.v, h.di));
        else if (how == 1) m.reset(new M(s.nb, h.ci, h.rp));
        else { m.reset(new M()); m->setStructure(s.nb, h.ci, h.rp); }
        m->setAllZero();
    }
    int apps = (int)get(p, "apps", 2), nops = (int)get(p, "nops", 2);
    Rng hr(get(p, "hseed", 1));
    int hot = (int)hr.below(pat.nnzb());
    std::vector<std::vector<Upd>> ops(apps);
    Vec expect(s.v.size(), 0.0);
    auto pos = [&](int row, int col) -> double & {  // scalar row and column
        int k = s.find(row / bs, col / bs);
        return expect[(size_t)k * bs * bs + (row % bs) * bs + col % bs];
    };
    for (int a = 0; a < apps; a++)
        for (int q = 0; q < nops; q++) {
            Rng r(sim::mix(get(p, "hseed", 1), a * 100 + q + 5));
            int k = get(p, "hot") && r.chance(0.8) ? hot : (int)r.below(pat.nnzb());
            int bi = 0;
            while (pat.rp[bi + 1] <= k) bi++;
            Upd u;
            u.diag = r.chance(0.3);
            u.bi = u.bj = eb;
            u.i = bi * eb;
            u.j = (u.diag ? bi : pat.ci[k]) * eb;
            if (bs == 1 && !u.diag && eb > 1 && r.chance(0.5)) {  // a rectangular part of the element block
                u.bi = r.range(1, eb); u.bj = r.range(1, eb);
                u.i += (int)r.below(eb - u.bi + 1);
                u.j += (int)r.below(eb - u.bj + 1);
            }
            u.buf.resize((size_t)u.bi * u.bj);
            for (auto &x : u.buf) x = (double)r.range(-50, 50);
            for (int x = 0; x < u.bi; x++)
                for (int y = 0; y < u.bj; y++) pos(u.i + x, u.j + y) += u.buf[(size_t)x * u.bj + y];
            ops[a].push_back(u);
        }
    // initial values: every thread submits the element blocks that belong to it, whole or in rectangular parts
    std::vector<std::vector<Upd>> init(apps);
    if (get(p, "subm")) {
        Vec first(expect.size(), 0.0);
        Vec add;
        std::swap(add, expect);
        std::swap(first, expect);
        for (int bi = 0; bi < pat.nb; bi++)
            for (int k = pat.rp[bi]; k < pat.rp[bi + 1]; k++) {
                Rng r(sim::mix(get(p, "hseed", 1), 70000 + k));
                for (int q = (int)r.below(3); q > 0; q--) {
                    Upd u;
                    u.diag = false;
                    u.bi = u.bj = eb;
                    u.i = bi * eb;
                    u.j = pat.ci[k] * eb;
                    if (bs == 1 && eb > 1 && r.chance(0.6)) {
                        u.bi = r.range(1, eb); u.bj = r.range(1, eb);
                        u.i += (int)r.below(eb - u.bi + 1);
                        u.j += (int)r.below(eb - u.bj + 1);
                    }
                    u.buf.resize((size_t)u.bi * u.bj);
                    for (auto &x : u.buf) x = (double)r.range(-50, 50);
                    for (int x = 0; x < u.bi; x++)
                        for (int y = 0; y < u.bj; y++) pos(u.i + x, u.j + y) = u.buf[(size_t)x * u.bj + y];
                    init[k % apps].push_back(u);
                }
            }
        for (size_t e = 0; e < expect.size(); e++) expect[e] += add[e];
        auto submit = [&](int a) {
            for (auto &u : init[a]) {
                HVec b(u.buf);
                { Sut in; m->submitBlock(u.i, u.j, b.d, u.bi, u.bj); }
                b.check_unmodified("assembly");
            }
        };
        for (int a = 1; a < apps; a++) sim::spawn([&, a] { submit(a); });
        submit(0);
        sim::join_all();
    }
    auto work = [&](int a) {
        for (auto &u : ops[a]) {
            HVec b(u.buf);
            {
                Sut in;
                if (u.diag) m->updateDiagBlock(u.i, b.d, eb);
                else m->updateBlock(u.i, u.j, b.d, u.bi, u.bj);
            }
            b.check_unmodified("assembly");
        }
    };
    for (int a = 1; a < apps; a++) sim::spawn([&, a] { work(a); });
    work(0);
    sim::join_all();
    if (get(p, "mid")) {  // whole-matrix operations between assembly phases
        double f = 2;
        Sut in;
        m->scaleAll(f);
        for (auto &x : expect) x *= f;
    }
    // read back through products with the unit vectors
    int n = s.nb * bs;
    for (int j = 0; j < n; j++) {
        Vec e(n, 0.0), ref(n, 0.0);
        e[j] = 1;
        HVec x(e), y(Vec(n, 7.0));
        { Sut in; m->apply(x.d, y.d); }
        for (int i = 0; i < n; i++)
            if (s.find(i / bs, j / bs) >= 0) ref[i] = pos(i, j);
        sim::add_output(y.d, n * sizeof(double));
        for (int i = 0; i < n; i++)
            if (y.d[i] != ref[i])
                badv("lost-contribution", "after %d threads assembled %d contributions each, entry (%d,%d) is %.17g, expected %.17g", apps, nops, i, j, y.d[i], ref[i]);
    }
    if (how == 0)
        for (size_t k = 0; k < expect.size(); k++)
            if (h.v[k] != expect[k]) badv("lost-contribution", "stored value %zu is %.17g, expected %.17g", k, h.v[k], expect[k]);
    { Sut in; m.reset(); }
}
static void body_p08(const Params &p) {
    int bs = (int)get(p, "bs", 1);
    if (bs == 1) assemble<1>(p);
    if (bs == 3) assemble<3>(p);
    if (bs == 7) assemble<7>(p);
}

// ------------------------------------------------------------------ P09
static Params gen_p09(Rng &r, int) {
    Params p;
    p["n"] = r.chance(0.3) ? r.range(0, 6) : r.chance(0.01) ? r.range(61, 3000) : r.chance(0.0001) ? r.range(3001, 140000) : r.range(0, 60);
    p["nthreads"] = r.chance(0.02) ? r.range(13, 40) : r.range(1, 12);
    p["reduce"] = r.chance(0.35) ? r.range(1, 2) : 0;
    p["vseed"] = (int64_t)(r.next() >> 34);
    p["poison"] = (int64_t)r.below(5);
    p["rep"] = r.range(1, 2);
    return p;
}
static void body_p09(const Params &p) {
    Rng r(get(p, "vseed", 1));
    int n = (int)get(p, "n");
    for (int q = 0; q < (int)get(p, "rep", 1); q++) {
        std::vector<int> v(n), ref(n);
        int sum = 0;
        for (int i = 0; i < n; i++) {
            v[i] = (int)r.below(q ? 3 : 1000);
            ref[i] = sum;
            sum += v[i];
        }
        HInts h(v);
        { Sut in; blasted::prefix_sum<int>(h.d, n); }
        sim::add_output(h.d, n * sizeof(int));
        for (int i = 0; i < n; i++)
            if (h.d[i] != ref[i])
                badv("wrong-scan", "prefix sum of %d entries with %d threads: entry %d is %d, expected %d", n, (int)get(p, "nthreads"), i, h.d[i], ref[i]);
    }
}

// ------------------------------------------------------------------ P15
template <int bs> struct Reord : blasted::ReorderingScaling<double, int, bs> {
    // What it is asked to look at; the ordering itself is set by the workload.
    const Held *want = nullptr;
    int seen = 0, seen_ok = 0;
    void compute(const CRawBSRMatrix<double, int> &m) override {
        sim::NoSut ns;
        seen++;
        if (!want) return;
        const Sys &s = want->s;
        bool ok = m.nbrows == s.nb && m.nnzb == s.nnzb() && m.nbstored == s.nnzb();
        for (int i = 0; ok && i <= s.nb; i++) ok = m.browptr[i] == s.rp[i];
        for (int i = 0; ok && i < s.nb; i++) ok = m.diagind[i] == s.di[i] && m.browendptr[i] == s.rp[i + 1];
        for (int k = 0; ok && k < s.nnzb(); k++) ok = m.bcolind[k] == s.ci[k];
        seen_ok += ok && !memcmp(m.vals, s.v.data(), s.v.size() * sizeof(double));
    }
    void setScales(const Vec &rs, const Vec &cs) { this->rowscale = rs; this->colscale = cs; }
};
static Params gen_p15(Rng &r, int) {
    Params p;
    static const int bss[] = {1, 1, 4, 7};
    SysOpt o;
    o.symmetric = false;
    o.blocks = false;
    o.max1 = 16;
    o.big1 = 700;            // several chunks of the 200-row loops
    o.pbig = 0.01;
    gen_sys_params(p, r, o);
    p["bs"] = bss[r.below(4)];
    if (p["bs"] > 1) p["nb"] = p.count("big") ? r.range(7, p["bs"] == 4 ? 300 : 230) : r.range(1, 6);
    p["rm"] = r.below(2);
    gen_run_params(p, r, 1);
    p["rows"] = r.below(3);      // 0: none, otherwise present
    p["cols"] = r.below(3);
    p["rsc"] = r.below(2);
    p["csc"] = r.below(2);
    p["own"] = r.below(2);
    p["two"] = r.chance(0.25);
    p["ask"] = r.below(2);
    if (r.chance(0.3)) {
        p["seq"] = r.range(2, p.count("big") ? 3 : 8);
        p["apps"] = r.chance(0.3) ? r.range(2, 3) : 1;
    }
    return p;
}
static std::vector<int> perm(Rng &r, int n) {
    std::vector<int> q(n);
    for (int i = 0; i < n; i++) q[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(q[i], q[r.below(i + 1)]);
    return q;
}
// compare a stored matrix with a dense block reference
template <int bs> static void same_matrix(const char *what, const Sys &ref, const int *rp, const int *ci, const double *v, double tol, const int *di = nullptr) {
    for (int i = 0; i <= ref.nb; i++)
        if (rp[i] != ref.rp[i]) badv("reorder", "%s: row pointer %d is %d, expected %d", what, i, rp[i], ref.rp[i]);
    for (int i = 0; i < ref.nb; i++) {
        if (!di) break;
        bool have = ref.find(i, i) >= 0;
        if (have ? di[i] < rp[i] || di[i] >= rp[i + 1] || ci[di[i]] != i : di[i] != -1)
            badv("reorder", "%s: the diagonal location of row %d is %d", what, i, di[i]);
    }
    for (int i = 0; i < ref.nb; i++)
        for (int k = ref.rp[i]; k < ref.rp[i + 1]; k++) {
            // the order of the entries within a row is not observable: look the column up
            int at = -1;
            for (int q = ref.rp[i]; q < ref.rp[i + 1]; q++)
                if (ci[q] == ref.ci[k]) at = q;
            if (at < 0) { badv("reorder", "%s: entry (%d,%d) is missing", what, i, ref.ci[k]); return; }
            for (int e = 0; e < bs * bs; e++)
                if (!(std::fabs(v[(size_t)at * bs * bs + e] - ref.v[(size_t)k * bs * bs + e]) <= tol * (1 + std::fabs(ref.v[(size_t)k * bs * bs + e]))))
                    badv("reorder", "%s: value %d of entry (%d,%d) is %.17g, expected %.17g", what, e, i, ref.ci[k], v[(size_t)at * bs * bs + e],
                        ref.v[(size_t)k * bs * bs + e]);
        }
}
template <int bs> static void reord_case(const Params &p) {
    Sys s = make_sys(p);
    int nb = s.nb, n = s.n();
    Rng r(get(p, "vseed", 1));
    bool rows = get(p, "rows"), cols = get(p, "cols");
    std::vector<int> rp = perm(r, nb), cp = perm(r, nb);
    Vec rsv(nb), csv(nb);
    for (auto &x : rsv) x = std::ldexp(0.5 + r.unit(), r.range(-2, 2));
    for (auto &x : csv) x = std::ldexp(0.5 + r.unit(), r.range(-2, 2));
    Vec rs = get(p, "rsc") ? rsv : Vec(), cs = get(p, "csc") ? csv : Vec();
    std::unique_ptr<Reord<bs>> ro;
    HInts hrp(rp), hcp(cp);
    {
        Sut in;
        ro.reset(new Reord<bs>);
        if (get(p, "two")) {  // an ordering set earlier must be replaced completely
            ro->setOrdering(rows ? hcp.d : nullptr, cols ? hrp.d : nullptr, nb);
        }
        ro->setOrdering(rows ? hrp.d : nullptr, cols ? hcp.d : nullptr, nb);
    }
    ro->setScales(rs, cs);
    // reference: scaling first, then ordering
    Sys sc = s;
    for (int i = 0; i < nb; i++)
        for (int k = s.rp[i]; k < s.rp[i + 1]; k++)
            for (int e = 0; e < bs * bs; e++)
                sc.v[(size_t)k * bs * bs + e] *= (rs.empty() ? 1 : rs[i]) * (cs.empty() ? 1 : cs[s.ci[k]]);
    std::vector<int> icp(nb);
    for (int i = 0; i < nb; i++) icp[cp[i]] = i;
    auto reorder = [&](const Sys &a) {
        Sys b;
        b.nb = nb; b.bs = bs; b.rm = a.rm;
        b.rp.push_back(0);
        for (int i = 0; i < nb; i++) {
            int src = rows ? rp[i] : i;
            std::vector<std::pair<int, int>> e;
            for (int k = a.rp[src]; k < a.rp[src + 1]; k++) e.push_back({cols ? icp[a.ci[k]] : a.ci[k], k});
            std::sort(e.begin(), e.end());
            for (auto &x : e) {
                b.ci.push_back(x.first);
                b.v.insert(b.v.end(), a.v.begin() + (size_t)x.second * bs * bs, a.v.begin() + (size_t)(x.second + 1) * bs * bs);
            }
            b.rp.push_back((int)b.ci.size());
        }
        return b;
    };
    Sys f = reorder(sc), fo = reorder(s);
    Held h(s, 64);
    if (get(p, "own") && bs != 4) {
        if constexpr (bs != 4) {
            typedef blasted::BSRMatrix<double, int, bs> M;
            std::unique_ptr<M> m;
            { Sut in; m.reset(new M(nb, h.rp, h.ci, h.v, h.di)); }
            if (get(p, "ask")) {
                ro->want = &h;
                { Sut in; m->computeOrderingScaling(*ro); }
                ro->want = nullptr;
                if (ro->seen != 1 || !ro->seen_ok) badv("reorder", "the ordering was computed %d times, %d times for the matrix asked for", ro->seen, ro->seen_ok);
                h.check_unmodified("the computation of an ordering");
            }
            { Sut in; m->reorderScale(*ro, blasted::FORWARD); }
            same_matrix<bs>("forward reordering and scaling", f, h.rp, h.ci, h.v, 1e-13, h.di);
            sim::add_output(h.v, s.v.size() * 8);
            { Sut in; m->reorderScale(*ro, blasted::INVERSE); }
            same_matrix<bs>("inverse reordering and scaling", s, h.rp, h.ci, h.v, 1e-13, h.di);
            { Sut in; m.reset(); }
        }
    } else {
        RawBSRMatrix<double, int> m(h.rp, h.ci, h.v, h.di, h.re, nb, s.nnzb(), s.nnzb());
        { Sut in; ro->applyOrdering(m, blasted::FORWARD); }
        same_matrix<bs>("forward ordering", fo, h.rp, h.ci, h.v, 0, h.di);
        sim::add_output(h.v, s.v.size() * 8);
        { Sut in; ro->applyOrdering(m, blasted::INVERSE); }
        same_matrix<bs>("inverse ordering", s, h.rp, h.ci, h.v, 0, h.di);
        { Sut in; ro->applyScaling(m, blasted::FORWARD); }
        same_matrix<bs>("forward scaling", sc, h.rp, h.ci, h.v, 1e-13, h.di);
        { Sut in; ro->applyScaling(m, blasted::INVERSE); }
        same_matrix<bs>("inverse scaling", s, h.rp, h.ci, h.v, 1e-13, h.di);
    }
    // vectors
    for (int dir = 0; dir < 2; dir++) {
        bool have = dir ? cols : rows;
        auto &q = dir ? cp : rp;
        auto &sv = dir ? cs : rs;
        Vec x = gen_vec(r, n), fx = x, sx = x;
        for (int i = 0; i < n; i++) {
            if (have) fx[i] = x[q[i / bs] * bs + i % bs];
            if (!sv.empty()) sx[i] = x[i] * sv[i / bs];
        }
        blasted::RSApplyDir d = dir ? blasted::COLUMN : blasted::ROW;
        HVec hx(x);
        auto chk = [&](const char *what, const Vec &ref, double tol) {
            sim::add_output(hx.d, n * 8);
            int w = 0;
            if (!close(hx.d, ref, tol, &w)) badv("reorder", "%s of a vector (%s): entry %d is %.17g, expected %.17g", what, dir ? "columns" : "rows", w, hx.d[w], ref[w]);
        };
        { Sut in; ro->applyOrdering(hx.d, blasted::FORWARD, d); }
        chk("forward ordering", fx, 0);
        { Sut in; ro->applyOrdering(hx.d, blasted::INVERSE, d); }
        chk("inverse ordering", x, 0);
        { Sut in; ro->applyScaling(hx.d, blasted::FORWARD, d); }
        chk("forward scaling", sx, 1e-14);
        { Sut in; ro->applyScaling(hx.d, blasted::INVERSE, d); }
        chk("inverse scaling", x, 1e-14);
    }
    { Sut in; ro.reset(); }
}
// Any sequence of applications and inverses, on a matrix and a vector, with one ordering shared by all application threads.
struct Ordering {
    bool rows, cols;
    std::vector<int> rp, cp, irp, icp;
    Vec rs, cs;
};
static Ordering gen_ordering(Rng &r, int nb, bool rows, bool cols, bool rsc, bool csc) {
    Ordering o;
    o.rows = rows;
    o.cols = cols;
    o.rp = perm(r, nb);
    o.cp = perm(r, nb);
    o.irp.resize(nb);
    o.icp.resize(nb);
    for (int i = 0; i < nb; i++) { o.irp[o.rp[i]] = i; o.icp[o.cp[i]] = i; }
    if (rsc) for (int i = 0; i < nb; i++) o.rs.push_back(std::ldexp(0.5 + r.unit(), r.range(-2, 2)));
    if (csc) for (int i = 0; i < nb; i++) o.cs.push_back(std::ldexp(0.5 + r.unit(), r.range(-2, 2)));
    return o;
}
static void ref_scale(Sys &a, const Ordering &o, bool inv) {
    for (int i = 0; i < a.nb; i++)
        for (int k = a.rp[i]; k < a.rp[i + 1]; k++) {
            double f = (o.rs.empty() ? 1 : o.rs[i]) * (o.cs.empty() ? 1 : o.cs[a.ci[k]]);
            for (int e = 0; e < a.bs * a.bs; e++) inv ? a.v[(size_t)k * a.bs * a.bs + e] /= f : a.v[(size_t)k * a.bs * a.bs + e] *= f;
        }
}
static void ref_order(Sys &a, const Ordering &o, bool inv) {
    Sys b;
    b.nb = a.nb; b.bs = a.bs; b.rm = a.rm;
    b.rp.push_back(0);
    size_t q = (size_t)a.bs * a.bs;
    const std::vector<int> &rows = inv ? o.irp : o.rp, &cols = inv ? o.cp : o.icp;
    for (int i = 0; i < a.nb; i++) {
        int src = o.rows ? rows[i] : i;
        std::vector<std::pair<int, int>> e;
        for (int k = a.rp[src]; k < a.rp[src + 1]; k++) e.push_back({o.cols ? cols[a.ci[k]] : a.ci[k], k});
        std::sort(e.begin(), e.end());
        for (auto &x : e) {
            b.ci.push_back(x.first);
            b.v.insert(b.v.end(), a.v.begin() + x.second * q, a.v.begin() + (x.second + 1) * q);
        }
        b.rp.push_back((int)b.ci.size());
    }
    a = b;
}
static void ref_vec(Vec &x, int bs, const Ordering &o, int op, bool col) {
    const Vec &sv = col ? o.cs : o.rs;
    if (op >= 2) {
        if (sv.empty()) return;
        for (size_t i = 0; i < x.size(); i++) op == 2 ? x[i] *= sv[i / bs] : x[i] /= sv[i / bs];
        return;
    }
    if (!(col ? o.cols : o.rows)) return;
    const std::vector<int> &q = op == 0 ? col ? o.cp : o.rp : col ? o.icp : o.irp;
    Vec y(x);
    for (size_t i = 0; i < x.size(); i++) x[i] = y[q[i / bs] * bs + i % bs];
}
template <int bs> static void reord_history(const Params &p, const Sys &s0, Reord<bs> &ro, const Ordering &first, uint64_t seed, bool shared) {
    Rng r(seed);
    Ordering o = first;
    Sys s = s0, orig = s0;
    int nb = s.nb, n = s.n();
    Held h(orig, 64);
    RawBSRMatrix<double, int> m(h.rp, h.ci, h.v, h.di, h.re, nb, s.nnzb(), s.nnzb());
    Vec x = gen_vec(r, n);
    HVec hx(x);
    static const char *names[] = {"forward ordering", "inverse ordering", "forward scaling", "inverse scaling"};
    std::string done;
    for (int k = 0; k < (int)get(p, "seq"); k++) {
        if (!shared && r.chance(0.1)) {
            o = gen_ordering(r, nb, o.rows, o.cols, r.below(2), r.below(2));     // an ordering not given is ignored
            HInts hrp(o.rp), hcp(o.cp);
            { Sut in; ro.setOrdering(o.rows ? hrp.d : nullptr, o.cols ? hcp.d : nullptr, nb); }
            ro.setScales(o.rs, o.cs);
            done += " another ordering;";
        }
        int op = (int)r.below(4), vop = (int)r.below(4);
        bool col = r.below(2);
        blasted::RSApplyMode mode = op & 1 ? blasted::INVERSE : blasted::FORWARD, vmode = vop & 1 ? blasted::INVERSE : blasted::FORWARD;
        {
            Sut in;
            if (op < 2) ro.applyOrdering(m, mode);
            else ro.applyScaling(m, mode);
            if (vop < 2) ro.applyOrdering(hx.d, vmode, col ? blasted::COLUMN : blasted::ROW);
            else ro.applyScaling(hx.d, vmode, col ? blasted::COLUMN : blasted::ROW);
        }
        done += std::string(" ") + names[op] + ";";
        if (op < 2) ref_order(s, o, op & 1);
        else ref_scale(s, o, op & 1);
        ref_vec(x, bs, o, vop, col);
        same_matrix<bs>(("after" + done).c_str(), s, h.rp, h.ci, h.v, 1e-12, h.di);
        int w = 0;
        if (!close(hx.d, x, 1e-12, &w)) badv("reorder", "%s of a vector (%s, operation %d): entry %d is %.17g, expected %.17g", names[vop], col ? "columns" : "rows", k, w, hx.d[w], x[w]);
        sim::add_output(h.v, s.v.size() * 8);
        sim::add_output(hx.d, n * 8);
    }
}
template <int bs> static void reord_histories(const Params &p) {
    Sys s = make_sys(p);
    Rng r(get(p, "vseed", 1));
    Ordering o = gen_ordering(r, s.nb, get(p, "rows"), get(p, "cols"), get(p, "rsc"), get(p, "csc"));
    Reord<bs> ro;
    {
        HInts hrp(o.rp), hcp(o.cp);
        Sut in;
        ro.setOrdering(o.rows ? hrp.d : nullptr, o.cols ? hcp.d : nullptr, s.nb);
    }
    ro.setScales(o.rs, o.cs);
    int apps = (int)get(p, "apps", 1);
    std::vector<uint64_t> seeds;
    for (int a = 0; a < apps; a++) seeds.push_back(r.next());
    for (int a = 1; a < apps; a++) sim::spawn([&, a] { reord_history<bs>(p, s, ro, o, seeds[a], true); });
    reord_history<bs>(p, s, ro, o, seeds[0], apps > 1);
    sim::join_all();
}
static void body_p15(const Params &p) {
    int bs = (int)get(p, "bs", 1);
    if (get(p, "seq")) {
        if (bs == 1) reord_histories<1>(p);
        if (bs == 4) reord_histories<4>(p);
        if (bs == 7) reord_histories<7>(p);
        return;
    }
    if (bs == 1) reord_case<1>(p);
    if (bs == 4) reord_case<4>(p);
    if (bs == 7) reord_case<7>(p);
}

extern const Workload w_p07{"P07", gen_p07, body_p07, nullptr, false};
extern const Workload w_p08{"P08", gen_p08, body_p08, nullptr, false};
extern const Workload w_p09{"P09", gen_p09, body_p09, nullptr, false};
extern const Workload w_p15{"P15", gen_p15, body_p15, nullptr, false};
