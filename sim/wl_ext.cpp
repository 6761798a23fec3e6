// P16: incomplete factorisation of an externally reordered matrix.
#include "wl.h"
#include <cstdio>
#include "reorderingscaling.hpp"
#include "solverops_ilu0.hpp"
#include "sai.hpp"

using namespace model;

static Vec junk(Rng &r, int n) {
    Vec v(n);
    for (auto &x : v) x = 1e3 * (r.unit() - 0.5);
    return v;
}
static std::vector<int> perm(Rng &r, int n) {
    std::vector<int> q(n);
    for (int i = 0; i < n; i++) q[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(q[i], q[r.below(i + 1)]);
    return q;
}

// ------------------------------------------------------------------ P16
namespace {
// an application's ordering: new permutations whenever the preconditioner is computed
struct Ord : blasted::ReorderingScaling<double, int, 1> {
    std::vector<int> *nr = nullptr, *nc = nullptr;
    const Sys *want = nullptr;      // the matrix that the ordering is for
    bool other = false;
    void compute(const blasted::CRawBSRMatrix<double, int> &m) override {
        if (want) {
            sim::NoSut ns;
            bool ok = m.nbrows == want->nb;
            for (int i = 0; ok && i <= want->nb; i++) ok = m.browptr[i] == want->rp[i];
            for (int k = 0; ok && k < want->nnzb(); k++) ok = m.bcolind[k] == want->ci[k] && m.vals[k] == want->v[k];
            other = other || !ok;
        }
        setOrdering(nr ? nr->data() : nullptr, nc ? nc->data() : nullptr, (int)(nr ? nr->size() : nc ? nc->size() : 0));
    }
};
typedef blasted::ReorderedAsyncILU0_SRPreconditioner<double, int> RPrec;
}
static Params gen_p16(Rng &r, int) {
    Params p;
    SysOpt o;
    o.units = true;
    o.symmetric = r.chance(0.5);
    o.max1 = 11;
    o.min_nb = 2;
    o.blocks = false;
    o.big1 = 30;
    o.huge1 = 150; o.huge4 = 30; o.pgiant = 0.002;
    o.pbig = 0.004;
    gen_sys_params(p, r, o);
    gen_run_params(p, r, 2);
    p["chunk"] = gen_chunk(p, r);
    p["rows"] = r.below(4) > 0;
    p["cols"] = r.below(4) > 0;
    p["same"] = r.chance(0.3);
    p["tf"] = r.below(4) > 0;
    p["ta"] = r.below(4) > 0;
    p["finit"] = (int)r.below(4);
    p["ainit"] = (int)r.below(2);
    p["rounds"] = r.range(1, 3);
    p["newvals"] = r.below(2);
    p["newperm"] = r.below(2);
    p["apps"] = r.chance(0.15) ? 2 : 1;       // threads with a preconditioner each
    return p;
}
static void p16_one(const Params &p, const Sys &t, uint64_t seed) {      // t: the reordered matrix, full diagonal, positive
    int n = t.nb;
    Rng r(seed);
    bool rows = get(p, "rows"), cols = get(p, "cols");
    std::vector<int> rp = perm(r, n), cp = get(p, "same") ? rp : perm(r, n), id(n);
    for (int i = 0; i < n; i++) id[i] = i;
    if (!rows) rp = id;
    if (!cols) cp = id;
    // the application's matrix: A[rp[i]][cp[j]] = T[i][j]
    auto unorder = [&](const Sys &a) {
        Sys b;
        b.nb = n; b.bs = 1; b.rm = a.rm;
        std::vector<std::vector<std::pair<int, double>>> rowsv(n);
        for (int i = 0; i < n; i++)
            for (int k = a.rp[i]; k < a.rp[i + 1]; k++) rowsv[rp[i]].push_back({cp[a.ci[k]], a.v[k]});
        b.rp.push_back(0);
        b.di.assign(n, -1);
        for (int i = 0; i < n; i++) {
            std::sort(rowsv[i].begin(), rowsv[i].end());
            for (auto &e : rowsv[i]) {
                if (e.first == i) b.di[i] = (int)b.ci.size();
                b.ci.push_back(e.first);
                b.v.push_back(e.second);
            }
            b.rp.push_back((int)b.ci.size());
        }
        return b;
    };
    auto order = [&](const Sys &a) {
        Sys b;
        b.nb = n; b.bs = 1; b.rm = a.rm;
        std::vector<int> icp(n);
        for (int i = 0; i < n; i++) icp[cp[i]] = i;
        b.rp.push_back(0);
        for (int i = 0; i < n; i++) {
            std::vector<std::pair<int, double>> e;
            for (int k = a.rp[rp[i]]; k < a.rp[rp[i] + 1]; k++) e.push_back({icp[a.ci[k]], a.v[k]});
            std::sort(e.begin(), e.end());
            int d = -1;
            for (auto &x : e) {
                if (x.first == i) d = (int)b.ci.size();
                b.ci.push_back(x.first);
                b.v.push_back(x.second);
            }
            b.di.push_back(d);
            b.rp.push_back((int)b.ci.size());
        }
        return b;
    };
    Sys a = unorder(t);
    if (t.rexp.size()) {
        a.rexp.resize(n);
        for (int i = 0; i < n; i++) a.rexp[rp[i]] = t.rexp[i];
    }
    Held h(a, (int)get(p, "align", 64));
    bool tf = get(p, "tf"), ta = get(p, "ta");
    int depth_f = ilu_depth(t), depth_a = tri_depth(t);
    // a second ordering: the symmetric renumbering of the first keeps the diagonal full
    std::vector<int> q = perm(r, n), rp2(n), cp2(n);
    for (int i = 0; i < n; i++) { rp2[i] = rp[q[i]]; cp2[i] = cp[q[i]]; }
    bool canrenumber = rows && cols;
    if (canrenumber && get(p, "newperm")) {
        std::swap(rp, rp2);
        std::swap(cp, cp2);
        Sys t2 = order(a);
        depth_f = std::max(depth_f, ilu_depth(t2));
        depth_a = std::max(depth_a, tri_depth(t2));
        std::swap(rp, rp2);
        std::swap(cp, cp2);
    }
    int bsw = tf ? sweeps_for(depth_f, p) : 1, asw = ta ? sweeps_for(depth_a, p) : 1;
    Ord ord;
    std::vector<int> cr, cc;
    if (rows) ord.nr = &cr;
    if (cols) ord.nc = &cc;
    ord.want = &a;
    RPrec *pc = nullptr;
    {
        Sut in;
        pc = new RPrec(h.wrap(), &ord, bsw, asw, (int)get(p, "chunk", 1), (blasted::FactInit)get(p, "finit"), (blasted::ApplyInit)get(p, "ainit"), tf, ta);
    }
    for (int q2 = 0; q2 < (int)get(p, "rounds", 1); q2++) {
        if (q2 > 0 && get(p, "newvals")) {
            Vec nv = a.v;
            for (auto &x : nv) x *= 2.5;           // stays equally dominant
            for (int i = 0; i < n; i++)
                for (int k = a.rp[i]; k < a.rp[i + 1]; k++) nv[k] *= std::ldexp(1.0, (i * 7 + q2) % 3);
            a.v = nv;
            h.set_values(nv);
            const_cast<Sys &>(h.s).v = nv;
        }
        if (q2 > 0 && canrenumber && get(p, "newperm")) { std::swap(rp, rp2); std::swap(cp, cp2); }
        cr = rp;
        cc = cp;
        Sys s2 = order(a);
        Ilu ref = ilu0(s2, true);
        if (!ref.ok) { sim::set_trivial(); break; }
        { Sut in; pc->compute(); }
        if (ord.other) badv("reordered-solve", "the ordering was computed for a matrix other than the one given");
        for (int k = 0; k < 2; k++) {
            Vec b = gen_rhs(r, a), pb(n), z(n);
            for (int i = 0; i < n; i++) pb[i] = b[rp[i]];
            Vec y = ilu_solve(ref, pb);
            for (int i = 0; i < n; i++) z[cp[i]] = y[i];
            HVec hb(b), hz(junk(r, n));
            { Sut in; pc->apply(hb.d, hz.d); }
            sim::add_output(hz.d, n * sizeof(double));
            int w = 0;
            if (!close(hz.d, z, tol_for(s2), &w))
                badv("reordered-solve", "factorisation of the reordered matrix (rows %d columns %d threads %d, computed %d times): entry %d of %d is %.17g, expected %.17g",
                     rows, cols, (int)get(p, "nthreads"), q2 + 1, w, n, hz.d[w], z[w]);
            h.check_unmodified("the reordered factorisation");
            hb.check_unmodified("the reordered application");
        }
    }
    { Sut in; delete pc; }
}
static void body_p16(const Params &p) {
    Sys t = make_sys(p);
    uint64_t seed = get(p, "vseed", 1);
    for (int a = 1; a < (int)get(p, "apps", 1); a++)
        sim::spawn([&p, &t, seed, a] { p16_one(p, t, sim::mix(seed, a)); });
    p16_one(p, t, seed);
    sim::join_all();
}
extern const Workload w_p16{"P16", gen_p16, body_p16, nullptr, false};

// ------------------------------------------------------------------ P17
// the defined overload is not the one sai.hpp declares; bound by name so that its absence costs only this workload
typedef blasted::SRMatrixStorage<const double, const int> CStore;
typedef blasted::SRMatrixStorage<double, int> MStore;
typedef void (*SaiFn)(const CStore &, const blasted::LeftSAIPattern<int> &, int, bool, MStore &);
extern "C" {
void sim_compute_sai_1(const CStore &, const blasted::LeftSAIPattern<int> &, int, bool, MStore &)
    __asm__("_ZN7blasted11compute_SAIIdiLi1ELN5Eigen14StorageOptionsE0EEEvRKNS_15SRMatrixStorageIKT_KT0_EERKNS_14LeftSAIPatternIS6_EEibRNS3_IS4_S6_EE") __attribute__((weak));
void sim_compute_sai_4(const CStore &, const blasted::LeftSAIPattern<int> &, int, bool, MStore &)
    __asm__("_ZN7blasted11compute_SAIIdiLi4ELN5Eigen14StorageOptionsE0EEEvRKNS_15SRMatrixStorageIKT_KT0_EERKNS_14LeftSAIPatternIS6_EEibRNS3_IS4_S6_EE") __attribute__((weak));
}
static Params gen_p17(Rng &r, int) {
    Params p;
    SysOpt o;
    o.symmetric = r.chance(0.4);
    o.max1 = 9;
    o.max4 = 4;
    o.blocks = false;
    o.big1 = 20;
    o.huge1 = 60; o.pgiant = 0.001;
    o.pbig = 0.004;
    gen_sys_params(p, r, o);
    if (r.chance(0.3)) {
        p["bs"] = 4;
        p["rm"] = 0;
        p["nb"] = r.range(1, 4);
        p.erase("big");
        p.erase("deg10");
    }
    p["dom"] = r.range(30, 85);
    gen_run_params(p, r, 2);
    p["lag"] = -1;
    p["chunk"] = gen_chunk(p, r);
    p["full"] = r.below(2);
    p["view"] = r.chance(0.3) ? r.range(1, 2) : 0;
    p["rounds"] = r.chance(0.3) ? 2 : 1;
    p["apps"] = r.chance(0.2) ? 2 : 1;
    return p;
}
// the reference: block row i of the approximate inverse, long double
static void sai_row(const std::vector<std::vector<int>> &J, const std::vector<std::vector<long double>> &A, int bs, int i, bool full, std::vector<double> &out, bool &ok) {
    int n = (int)A.size(), m = (int)J[i].size() * bs;
    std::vector<int> rows;
    for (int j : J[i])
        for (int k = 0; k < bs; k++) rows.push_back(j * bs + k);
    // G M^T = R, with M the bs x m block row
    std::vector<std::vector<long double>> G(m, std::vector<long double>(m + bs, 0));
    for (int a = 0; a < m; a++) {
        for (int b = 0; b < m; b++) {
            long double s = 0;
            if (full)
                for (int c = 0; c < n; c++) s += A[rows[a]][c] * A[rows[b]][c];
            else
                s = A[rows[b]][rows[a]];
            G[a][b] = s;
        }
        for (int k = 0; k < bs; k++) G[a][m + k] = full ? A[rows[a]][i * bs + k] : rows[a] == i * bs + k;
    }
    for (int c = 0; c < m; c++) {
        int pv = c;
        for (int q = c + 1; q < m; q++)
            if (std::fabs(G[q][c]) > std::fabs(G[pv][c])) pv = q;
        if (std::fabs(G[pv][c]) < 1e-9L) { ok = false; return; }
        std::swap(G[pv], G[c]);
        for (int q = 0; q < m; q++) {
            if (q == c) continue;
            long double f = G[q][c] / G[c][c];
            if (f != 0)
                for (int d = c; d < m + bs; d++) G[q][d] -= f * G[c][d];
        }
    }
    out.assign((size_t)m * bs, 0);
    for (int a = 0; a < m; a++)
        for (int k = 0; k < bs; k++) out[(size_t)a * bs + k] = (double)(G[a][m + k] / G[a][a]);
}
static void p17_one(const Params &p, const Sys &s0, uint64_t seed) {
    Sys s = s0;
    int n = s.n(), bs = s.bs, view = (int)get(p, "view");
    bool full = get(p, "full");
    Rng r(seed);
    SaiFn fn = bs == 1 ? sim_compute_sai_1 : sim_compute_sai_4;
    if (!fn) { sim::set_trivial(); return; }
    std::vector<int> rp(s.rp.begin(), s.rp.end() - 1), re(s.rp.begin() + 1, s.rp.end());
    int nnz = 0;
    for (int i = 0; i < s.nb; i++) {
        if (view == 1) re[i] = s.di[i] + 1;
        if (view == 2) rp[i] = s.di[i];
        nnz += re[i] - rp[i];
    }
    std::vector<int> rp1 = rp;
    rp1.push_back(view ? re.back() : s.rp.back());
    if (view == 1) rp1.back() = re.back();
    HInts hrp(rp1), hre(re), hci(s.ci), hdi(s.di), grp(rp1), gre(re), gci(s.ci), gdi(s.di);
    HVec hv(s.v, 64);
    Vec m0 = junk(r, (int)s.v.size());
    HVec gv(m0, 64);
    CStore a(hrp.d, hci.d, hv.d, hdi.d, hre.d, s.nb, nnz, s.nnzb(), bs);
    MStore m(grp.d, gci.d, gv.d, gdi.d, gre.d, s.nb, nnz, s.nnzb(), bs);
    std::unique_ptr<blasted::LeftSAIPattern<int>> sp;
    {
        Sut in;
        sp.reset(new blasted::LeftSAIPattern<int>(full ? blasted::left_SAI_pattern<double, int>(std::move(a)) : blasted::left_incomplete_SAI_pattern<double, int>(std::move(a))));
    }
    for (int q = 0; q < (int)get(p, "rounds", 1); q++) {
        if (q) {   // the pattern is computed once and used for new values
            for (int k = 0; k < s.nnzb(); k++)
                for (int e = 0; e < bs * bs; e++) s.v[(size_t)k * bs * bs + e] *= k % 3 ? 1.0 : -0.5;
            for (int i = 0; i < s.nb; i++)
                for (int e = 0; e < bs * bs; e++) s.v[(size_t)s.di[i] * bs * bs + e] = 4 * s0.v[(size_t)s.di[i] * bs * bs + e];
            hv.set(s.v);
        }
        { Sut in; fn(a, *sp, (int)get(p, "chunk", 1), full, m); }
        sim::add_output(gv.d, gv.n * sizeof(double));
        hv.check_unmodified("computing the approximate inverse");
        if (memcmp(hrp.d, rp1.data(), rp1.size() * 4) || memcmp(hci.d, s.ci.data(), s.ci.size() * 4) || memcmp(hre.d, re.data(), re.size() * 4) || memcmp(hdi.d, s.di.data(), s.di.size() * 4))
            badv("input-modified", "the matrix structure was modified by computing the approximate inverse");
        std::vector<std::vector<int>> J(s.nb);
        std::vector<std::vector<long double>> A(n, std::vector<long double>(n, 0));
        for (int i = 0; i < s.nb; i++)
            for (int k = rp[i]; k < re[i]; k++) {
                J[i].push_back(s.ci[k]);
                for (int x = 0; x < bs; x++)
                    for (int y = 0; y < bs; y++) A[i * bs + x][s.ci[k] * bs + y] = s.at(k, x, y);
            }
        std::vector<char> covered(s.nnzb(), 0);
        bool ok = true;
        for (int i = 0; i < s.nb; i++) {
            Vec ref;
            sai_row(J, A, bs, i, full, ref, ok);
            if (!ok) break;
            double big = maxabs(ref);
            for (int k = rp[i]; k < re[i]; k++) {
                covered[k] = 1;
                for (int x = 0; x < bs; x++)
                    for (int y = 0; y < bs; y++) {
                        double got = gv.d[(size_t)k * bs * bs + s.off(x, y)], want = ref[(size_t)((k - rp[i]) * bs + y) * bs + x];
                        if (!(std::fabs(got - want) <= 1e-8 * (1 + big)))
                            badv("approximate-inverse", "%s approximate inverse, block (%d,%d) entry (%d,%d) is %.17g, expected %.17g (computation %d, %d threads)",
                                 full ? "full" : "incomplete", i, s.ci[k], x, y, got, want, q + 1, (int)get(p, "nthreads"));
                    }
            }
        }
        if (!ok) { sim::set_trivial(); break; }
        for (int k = 0; k < s.nnzb(); k++)
            if (!covered[k] && memcmp(gv.d + (size_t)k * bs * bs, m0.data() + (size_t)k * bs * bs, bs * bs * sizeof(double)))
                badv("approximate-inverse", "the approximate inverse wrote outside the part of the matrix it was given (stored block %d)", k);
    }
    { Sut in; sp.reset(); }
}
static void body_p17(const Params &p) {
    Sys s = make_sys(p);
    if (get(p, "apps", 1) < 2) { p17_one(p, s, get(p, "vseed", 1)); return; }
    for (int t = 0; t < 2; t++) {
        uint64_t seed = get(p, "vseed", 1) + t;
        sim::spawn([&p, &s, seed] { p17_one(p, s, seed); });
    }
    sim::join_all();
}
extern const Workload w_p17{"P17", gen_p17, body_p17, nullptr, false};
