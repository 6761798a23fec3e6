// P13: allocation failure.
#include "wl.h"
#include <cstdio>
#include <set>
#include "blas/blas1.hpp"
#include "blas/matvecs.hpp"
#include "blockmatrices.hpp"
#include "coomatrix.hpp"
#include "helper_algorithms.hpp"
#include "levelschedule.hpp"
#include "reorderingscaling.hpp"
#include "scmatrixdefs.hpp"
#include "utils/prefix_sum.hpp"

using namespace model;
using blasted::CRawBSRMatrix;
using blasted::RawBSRMatrix;
typedef std::function<void()> Fn;

static Vec junk(Rng &r, int n) {
    Vec v(n);
    for (auto &x : v) x = 1e3 * (r.unit() - 0.5);
    return v;
}

// ------------------------------------------------------------------ P13
enum { A_CREATE, A_COMPUTE, A_APPLY, A_RELAX, A_MATRIX, A_UTIL, A_SCAN, A_ORDER, A_READ, A_LEVELS, NA };
static const char *a_names[] = {"creating a preconditioner", "computing a preconditioner", "applying a preconditioner", "relaxation",
                                "building a matrix", "converting or copying a matrix", "prefix sum", "ordering a matrix",
                                "reading a matrix", "building a level schedule"};
static Params gen_p13(Rng &r, int) {
    Params p;
    static const int w[] = {A_CREATE, A_COMPUTE, A_COMPUTE, A_COMPUTE, A_COMPUTE, A_APPLY, A_APPLY, A_RELAX, A_RELAX, A_MATRIX, A_MATRIX, A_UTIL, A_UTIL, A_SCAN, A_ORDER, A_READ, A_LEVELS};
    int op = w[r.below(sizeof(w) / sizeof(int))];
    SysOpt o;
    o.max1 = 8;
    o.max4 = 3;
    gen_sys_params(p, r, o);
    gen_run_params(p, r, 1);
    if (r.chance(0.7)) p["nthreads"] = 1;
    p["op"] = op;
    static const int types[] = {T_JACOBI, T_GS, T_SGS, T_ILU0, T_SEQILU0, T_SFILU0, T_SAPILU0, T_LEVELSGS, T_ALEVELILU0, T_CSCBGS, T_NOPREC};
    int t = types[r.below(11)];
    if (op == A_RELAX) { static const int rt[] = {T_JACOBI, T_GS, T_SGS, T_LEVELSGS}; t = rt[r.below(4)]; }
    if (op == A_APPLY && r.chance(0.3)) t = T_CSCBGS;
    if (t == T_CSCBGS) { p["bs"] = 1; p["rm"] = 0; }
    p["type"] = t;
    p["scale"] = r.below(2);
    p["info"] = (t == T_ILU0 || t == T_SAPILU0 || t == T_SFILU0 || t == T_SEQILU0) && r.chance(0.3);
    p["kind13"] = (int)r.below(8);
    p["asw"] = r.range(1, 2);
    p["points"] = r.range(1, 4);
    p["ctol"] = r.below(2);
    return p;
}
struct Probe {
    Fn fresh, action, check, drop;   // check: the result is right (only after a completed action)
    Fn inputs;                       // the caller's data are intact
    bool stream = false;             // reads through the standard streams, which turn a failed allocation into a failed extraction
};
static void probe(const Params &p, const char *what, const Probe &a) {
    a.fresh();
    sim::set_alloc_fail(-1);
    a.action();
    int n = sim::allocs_seen();
    a.check();
    a.inputs();
    a.drop();
    if (n == 0) { sim::set_trivial(); return; }
    for (int q = 0; q < (int)get(p, "points", 1); q++) {
        int k = (int)sim::choose(n);
        a.fresh();
        sim::set_alloc_fail(k);
        bool done = false, ba = false;
        std::string other;
        try {
            a.action();
            done = true;
        } catch (const std::bad_alloc &) {
            ba = true;
        } catch (const std::exception &e) {
            other = e.what();
        } catch (...) {
            other = "an object that is not an exception";
        }
        bool fired = sim::alloc_fired();
        sim::set_alloc_fail(-1);
        if (!done && !fired) bad("spurious-error", "%s: failed without any fault: %s", what, other.c_str());
        if (!done && !ba && !a.stream) bad("wrong-error", "%s: allocation %d of %d failed and was reported as: %s", what, k + 1, n, other.c_str());
        if (done) a.check();        // either not reached this time or tolerated: the result must be right
        a.inputs();
        a.drop();
    }
    const size_t held = sim::live_sut_allocs();
    a.fresh();
    a.action();
    a.check();
    a.inputs();
    a.drop();
    if (sim::live_sut_allocs() > held) bad("leak", "%s: blocks are lost although nothing failed:%s", what, sim::describe_live().c_str());
}
template <int bs> static void p13_matrix(const Params &p) {
    Sys s = make_sys(p);
    Rng r(get(p, "vseed", 1));
    Held h(s, 64);
    typedef blasted::BSRMatrix<double, int, bs> M;
    M *m = nullptr, *c = nullptr;
    int how = (int)get(p, "kind13") % 4;
    Vec xv = gen_vec(r, s.n()), ref = matvec(s, xv);
    HVec x(xv), y(xv);
    Vec zero(s.n(), 0.0);
    Probe a;
    a.fresh = [&] {
        if (how == 2) { Sut in; m = new M(s.nb, h.rp, h.ci, h.v, h.di); }
        if (how == 3) { Sut in; m = new M(); }
    };
    a.action = [&] {
        Sut in;
        if (how == 0) { m = new M(s.nb, h.ci, h.rp); m->setAllZero(); }
        if (how == 1) m = new M(s.nb, h.rp, h.ci, h.v, h.di);
        if (how == 2) c = new M(*m);
        if (how == 3) { m->setStructure(s.nb, h.ci, h.rp); m->setAllZero(); }
    };
    a.check = [&] {
        { Sut in; (how == 2 ? c : m)->apply(x.d, y.d); }
        int w = 0;
        if (!close(y.d, how == 1 || how == 2 ? ref : zero, 1e-12, &w)) bad("wrong-result", "the built matrix gives a wrong product (entry %d)", w);
    };
    a.drop = [&] { Sut in; delete c; delete m; m = c = nullptr; };
    a.inputs = [&] { h.check_unmodified("building a matrix"); x.check_unmodified("product"); };
    probe(p, a_names[A_MATRIX], a);
}
template <int bs> static void p13_util(const Params &p) {
    Sys s = make_sys(p);
    Held h(s, 64);
    CRawBSRMatrix<double, int> raw = h.raw();
    int how = (int)get(p, "kind13") % 4;
    RawBSRMatrix<double, int> c;
    CRawBSRMatrix<double, int> t;
    blasted::CRawBSCMatrix<double, int> cs{nullptr, nullptr, nullptr, nullptr, 0};
    bool have = false;
    Probe a;
    a.fresh = [&] { have = false; };
    a.action = [&] {
        Sut in;
        if (how == 0) c = blasted::copyRawBSRMatrix<double, int, bs>(raw);
        if (how == 1) t = blasted::getLowerTriangularView<double, int>(raw);
        if (how == 2) t = blasted::getUpperTriangularView<double, int>(raw);
        if (how == 3) blasted::convert_BSR_to_BSC<double, int, bs>(&raw, &cs);
        have = true;
    };
    a.check = [&] {
        bool ok = true;
        if (how == 0) {
            for (int i = 0; i < s.nb; i++) ok = ok && c.browptr[i] == s.rp[i] && c.diagind[i] == s.di[i];
            for (int k = 0; k < s.nnzb() * bs * bs; k++) ok = ok && c.vals[k] == s.v[k];
            for (int k = 0; k < s.nnzb(); k++) ok = ok && c.bcolind[k] == s.ci[k];
        } else if (how == 1 || how == 2) {
            for (int i = 0; i < s.nb; i++) {
                int n = how == 1 ? s.di[i] + 1 - s.rp[i] : s.rp[i + 1] - s.di[i];
                ok = ok && t.browendptr[i] - t.browptr[i] == n;
            }
        } else {
            for (int col = 0; col < s.nb; col++)
                for (int q = cs.bcolptr[col]; q < cs.bcolptr[col + 1]; q++) {
                    int k = s.find(cs.browind[q], col);
                    ok = ok && k >= 0;
                    for (int e = 0; ok && e < bs * bs; e++) ok = cs.vals[(size_t)q * bs * bs + e] == s.v[(size_t)k * bs * bs + e];
                }
        }
        if (!ok) bad("wrong-result", "copied, converted or viewed matrix is wrong");
    };
    a.drop = [&] {
        if (!have) return;
        Sut in;
        if (how == 0) blasted::alignedDestroyRawBSRMatrix<double, int>(c);
        if (how == 1 || how == 2) blasted::alignedDestroyRawBSRMatrixTriangularView<double, int>(reinterpret_cast<RawBSRMatrix<double, int> &>(t));
        if (how == 3) blasted::alignedDestroyCRawBSCMatrix<double, int>(cs);
    };
    a.inputs = [&] { h.check_unmodified("copying or converting"); };
    probe(p, a_names[A_UTIL], a);
}
static std::string mm_text(const Sys &s) {
    std::string t = "%%MatrixMarket matrix coordinate real general\n% test\n";
    char b[120];
    int n = s.n(), nnz = s.nnzb() * s.bs * s.bs;
    snprintf(b, sizeof b, "%d %d %d\n", n, n, nnz);
    t += b;
    for (int bi = 0; bi < s.nb; bi++)
        for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++)
            for (int i = 0; i < s.bs; i++)
                for (int j = 0; j < s.bs; j++) {
                    snprintf(b, sizeof b, "%d %d %.17g\n", bi * s.bs + i + 1, s.ci[k] * s.bs + j + 1, s.at(k, i, j));
                    t += b;
                }
    return t;
}
template <int bs> static void p13_order(const Params &p) {
    struct Reord : blasted::ReorderingScaling<double, int, bs> { void compute(const CRawBSRMatrix<double, int> &) override {} };
    Sys s = make_sys(p);
    Rng r(get(p, "vseed", 1));
    std::vector<int> rp(s.nb), cp(s.nb);
    for (int i = 0; i < s.nb; i++) rp[i] = cp[i] = i;
    for (int i = s.nb - 1; i > 0; i--) { std::swap(rp[i], rp[r.below(i + 1)]); std::swap(cp[i], cp[r.below(i + 1)]); }
    HInts hrp(rp), hcp(cp);
    Vec xv = gen_vec(r, s.n());
    Reord *ro = nullptr;
    HVec x(xv);
    int how = (int)get(p, "kind13") % 3;
    std::unique_ptr<Held> h;
    Probe a;
    a.fresh = [&] {
        h.reset(new Held(s, 64));
        x.set(xv);
        Sut in;
        ro = new Reord;
        if (how) ro->setOrdering(hrp.d, hcp.d, s.nb);
    };
    a.action = [&] {
        Sut in;
        if (how == 0) ro->setOrdering(hrp.d, hcp.d, s.nb);
        if (how == 1) {
            RawBSRMatrix<double, int> m(h->rp, h->ci, h->v, h->di, h->re, s.nb, s.nnzb(), s.nnzb());
            ro->applyOrdering(m, blasted::FORWARD);
        }
        if (how == 2) ro->applyOrdering(x.d, blasted::FORWARD, blasted::ROW);
    };
    a.check = [&] {
        if (how == 1)
            for (int i = 0; i < s.nb; i++)
                if (h->rp[i + 1] - h->rp[i] != s.rp[rp[i] + 1] - s.rp[rp[i]]) bad("wrong-result", "wrong row lengths after the ordering");
        if (how == 2)
            for (int i = 0; i < s.n(); i++)
                if (x.d[i] != xv[rp[i / bs] * bs + i % bs]) bad("wrong-result", "wrong vector ordering");
    };
    a.drop = [&] { { Sut in; delete ro; ro = nullptr; } h.reset(); };
    a.inputs = [&] {
        if (memcmp(hrp.d, rp.data(), rp.size() * 4) || memcmp(hcp.d, cp.data(), cp.size() * 4)) bad("input-modified", "the ordering given by the caller was modified");
    };
    probe(p, a_names[A_ORDER], a);
}
static void p13_solver(const Params &p) {
    Sys s = make_sys(p);
    int op = (int)get(p, "op");
    Rng r(get(p, "vseed", 1));
    Held h(s, (int)get(p, "align", 64));
    Settings st;
    st.type = (int)get(p, "type");
    st.chunk = (int)get(p, "chunk", 1);
    st.scale = get(p, "scale");
    st.asw = (int)get(p, "asw", 1);
    st.finit = blasted::INIT_F_ORIGINAL;
    st.info = get(p, "info");
    st.relax = op == A_RELAX;
    Prec pc;
    Vec rv = gen_vec(r, s.n()), first;
    HVec rr(rv), z(junk(r, s.n()));
    Vec j0 = z.orig;
    bool one = get(p, "nthreads", 1) == 1;
    auto cmpz = [&] {
        if (!one) return;
        Vec v = z.get();
        if (first.empty()) { first = v; return; }
        for (size_t i = 0; i < v.size(); i++)
            if (!(std::fabs(v[i] - first[i]) <= 1e-12 * (1 + std::fabs(first[i]))) && !(v[i] != v[i] && first[i] != first[i]))
                bad("wrong-result", "%s: result entry %zu is %.17g, without faults it is %.17g", type_names[st.type], i, v[i], first[i]);
    };
    bool ctol = get(p, "ctol");
    Probe a;
    auto act = [&] {
        if (op == A_RELAX) pc.relax(rr, z, 2, ctol, 1e-3, 1e-10, 1e3);
        else pc.apply(rr, z);
    };
    a.fresh = [&] {
        z.set(j0);
        if (op != A_CREATE) pc.create(h, st);
        if (op == A_APPLY || op == A_RELAX) pc.compute();
    };
    a.action = [&] {
        if (op == A_CREATE) pc.create(h, st);
        else if (op == A_COMPUTE) pc.compute();
        else act();
    };
    a.check = [&] {
        if (op == A_CREATE) pc.compute();
        if (op == A_CREATE || op == A_COMPUTE) act();
        cmpz();
    };
    a.drop = [&] { pc.destroy(); };
    a.inputs = [&] { h.check_unmodified("a failed operation"); rr.check_unmodified("a failed operation"); };
    probe(p, a_names[op], a);
}
static void body_p13(const Params &p) {
    int op = (int)get(p, "op"), bs = (int)get(p, "bs", 1);
    if (op <= A_RELAX) { p13_solver(p); return; }
    if (op == A_MATRIX) { if (bs == 1) p13_matrix<1>(p); else { Params q = p; q["bs"] = 3; q["rm"] = 1; p13_matrix<3>(q); } return; }
    if (op == A_UTIL) { if (bs == 1) p13_util<1>(p); else { Params q = p; q["bs"] = 4; p13_util<4>(q); } return; }
    if (op == A_ORDER) { if (bs == 1) p13_order<1>(p); else { Params q = p; q["bs"] = 4; p13_order<4>(q); } return; }
    Rng r(get(p, "vseed", 1));
    if (op == A_SCAN) {
        int n = r.range(1, 30);
        std::vector<int> v(n), ref(n);
        int t = 0;
        for (int i = 0; i < n; i++) { v[i] = (int)r.below(9); ref[i] = t; t += v[i]; }
        std::unique_ptr<HInts> h;
        Probe a;
        a.fresh = [&] { h.reset(new HInts(v)); };
        a.action = [&] { Sut in; blasted::prefix_sum<int>(h->d, n); };
        a.check = [&] { for (int i = 0; i < n; i++) if (h->d[i] != ref[i]) bad("wrong-result", "wrong prefix sum"); };
        a.drop = [&] { h.reset(); };
        a.inputs = [] {};
        probe(p, a_names[op], a);
        return;
    }
    Sys s = make_sys(p);
    if (op == A_LEVELS) {
        Held h(s, 64);
        CRawBSRMatrix<double, int> raw = h.raw();
        std::unique_ptr<std::vector<int>> lv;
        int n0 = -1;
        Probe a;
        a.fresh = [] {};
        a.action = [&] { Sut in; auto l = blasted::computeLevels<double, int>(&raw); lv.reset(new std::vector<int>(l.begin(), l.end())); };
        a.check = [&] {
            if (n0 < 0) n0 = (int)lv->size();
            if ((int)lv->size() != n0 || lv->back() != s.nb) bad("wrong-result", "wrong level schedule");
        };
        a.drop = [&] { Sut in; lv.reset(); };
        a.inputs = [&] { h.check_unmodified("building levels"); };
        probe(p, a_names[op], a);
        return;
    }
    // reading a matrix
    {
        sim::SimFile f;
        f.data = mm_text(s);
        sim::simfs_put("/simfs/m.mtx", f);
        blasted::COOMatrix<double, int> *coo = nullptr;
        blasted::SRMatrixStorage<double, int> *sr = nullptr;
        int n = s.n(), nnz = s.nnzb() * s.bs * s.bs;
        bool blk = n % 3 == 0 && get(p, "kind13") % 2;
        Probe a;
        a.stream = true;
        a.fresh = [&] { Sut in; coo = new blasted::COOMatrix<double, int>; };
        a.action = [&] {
            Sut in;
            coo->readMatrixMarket("/simfs/m.mtx");
            sr = new blasted::SRMatrixStorage<double, int>(blk ? blasted::getSRMatrixFromCOO<double, int, 3>(*coo, "rowmajor") : coo->convertToCSR());
        };
        a.check = [&] {
            if (coo->numnonzeros() != nnz || coo->numrows() != n || sr->nbrows != (blk ? n / 3 : n)) bad("wrong-result", "wrong size after reading");
            double sum = 0, want = 0;
            for (int k = 0; k < sr->nnzb * (blk ? 9 : 1); k++) sum += sr->vals[k];
            for (double v : s.v) want += v;
            if (!(std::fabs(sum - want) <= 1e-9 * (1 + std::fabs(want)))) bad("wrong-result", "wrong values after reading");
        };
        a.drop = [&] { Sut in; delete sr; delete coo; sr = nullptr; coo = nullptr; };
        a.inputs = [] {};
        probe(p, a_names[op], a);
    }
}

extern const Workload w_p13{"P13", gen_p13, body_p13, nullptr, false};
