// P18: histories of matrix objects and storage: contents, ownership, independence.
#include "wl.h"
#include <cstdio>
#include <new>
#include "blockmatrices.hpp"
#include "srmatrixdefs.hpp"
#include "arrayview.hpp"

extern template class blasted::ArrayView<int>;
extern template class blasted::ArrayView<double>;
extern template struct blasted::SRMatrixStorage<double, int>;
extern template struct blasted::SRMatrixStorage<const double, const int>;

using namespace model;
typedef blasted::SRMatrixStorage<double, int> MS;
typedef blasted::SRMatrixStorage<const double, const int> CS;

static Params gen_p18(Rng &r, int) {
    Params p;
    static const int bss[] = {1, 1, 3, 7};
    p["bs"] = bss[r.below(4)];
    p["rm"] = 1;
    p["nb"] = get(p, "bs") == 1 ? r.range(1, 6) : r.range(1, 3);
    if (r.chance(0.004)) p["nb"] = get(p, "bs") == 1 ? r.range(7, 60) : r.range(4, 15);
    else if (r.chance(0.0004)) { p["nb"] = get(p, "bs") == 1 ? r.range(61, 200) : r.range(16, 40); p["big"] = 1; }
    p["mode"] = r.chance(0.6) ? 0 : r.chance(0.6) ? 1 : 2;   // matrices, storage objects, array views
    p["hseed"] = (int64_t)(r.next() >> 34);
    p["nops"] = r.range(4, 16);
    p["apps"] = r.chance(0.25) ? 2 : 1;
    p["faults"] = get(p, "apps") == 1 && r.chance(0.4);
    p["fmax"] = r.range(1, 8);
    p["nthreads"] = r.range(1, 4);
    p["reduce"] = r.chance(0.2) ? 1 : 0;
    p["poison"] = (int64_t)r.below(5);
    return p;
}
static Sys small(Rng &r, int nb, int bs, bool fulldiag) {
    Sys s;
    s.nb = nb; s.bs = bs; s.rm = true;
    s.rp.push_back(0);
    int dens = r.range(10, 90);
    for (int i = 0; i < nb; i++) {
        int d = -1;
        for (int j = 0; j < nb; j++)
            if (i == j ? fulldiag || (int)r.below(100) < dens : (int)r.below(100) < dens) {
                if (i == j) d = (int)s.ci.size();
                s.ci.push_back(j);
            }
        s.di.push_back(d);
        s.rp.push_back((int)s.ci.size());
    }
    if (s.ci.empty()) return small(r, nb, bs, true);
    s.v.resize(s.ci.size() * bs * bs);
    for (auto &x : s.v) x = r.range(-9, 9);
    return s;
}
static bool diag_full(const Sys &s) {
    for (int d : s.di)
        if (d < 0) return false;
    return true;
}
template <class T> static T *sut_copy(const std::vector<T> &v) {
    T *p = (T *)blasted::aligned_alloc(CACHE_LINE_LEN, v.size() * sizeof(T));
    for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
    return p;
}
template <class T> static void fill(blasted::ArrayView<T> &a, const std::vector<T> &v) {
    for (size_t i = 0; i < v.size(); i++) a[(int)i] = v[i];
}

// runs one operation, perhaps with a failing allocation; false: it was refused
template <class F> static bool attempt(Rng &r, const Params &p, bool mayfail, const char *what, F f) {
    bool arm = mayfail && get(p, "faults") && r.chance(0.35);
    if (arm) sim::set_alloc_fail((int)r.below(get(p, "fmax", 4)));
    bool ok = true;
    try {
        Sut in;
        f();
    } catch (const std::bad_alloc &) { ok = false; }
    bool fired = sim::alloc_fired();
    if (arm) sim::set_alloc_fail(-1);
    if (!ok && !(arm && fired)) bad("spurious-failure", "%s reports lack of memory though no allocation failed", what);
    return ok;
}

// ---- matrices
template <int BS> struct Mat {
    typedef blasted::BSRMatrix<double, int, BS> M;
    M *m = nullptr;
    Sys s;
    bool usable = false;     // has structure and defined values
    int scaled = 0;
    std::unique_ptr<HInts> rp, ci, di, re;   // wrapped arrays
    std::unique_ptr<HVec> v;
    bool wrapped = false;
    void drop() {
        { Sut in; delete m; }
        m = nullptr;
        usable = wrapped = false;
        scaled = 0;
        if (v) check_wrapped();
        rp.reset(); ci.reset(); di.reset(); re.reset(); v.reset();
    }
    void hold(const Sys &a) {
        rp.reset(new HInts(a.rp)); ci.reset(new HInts(a.ci)); di.reset(new HInts(a.di));
        re.reset(new HInts(std::vector<int>(a.rp.begin() + 1, a.rp.end())));
        v.reset(new HVec(a.v, 64));
        held = a;
    }
    Sys held;                // what the wrapped arrays must hold
    void check_wrapped() {
        if (!v) return;
        const Sys &a = wrapped ? s : held;
        if (memcmp(rp->d, a.rp.data(), a.rp.size() * 4) || memcmp(ci->d, a.ci.data(), a.ci.size() * 4) || memcmp(di->d, a.di.data(), a.di.size() * 4))
            badv("foreign-change", "the wrapped structure arrays of a matrix changed");
        for (size_t i = 0; i < a.v.size(); i++)
            if (v->d[i] != a.v[i]) badv("foreign-change", "value %zu of a wrapped array is %.17g, expected %.17g", i, v->d[i], a.v[i]);
        if (wrapped) held = s;
    }
};
template <int BS> static void check_mat(Mat<BS> &q, Rng &r, const char *when) {
    if (!q.usable) return;
    int n = q.s.n();
    if (q.m->dim() != n) badv("wrong-content", "after %s: dimension %d, expected %d", when, (int)q.m->dim(), n);
    Vec x(n), y0(n);
    for (int i = 0; i < n; i++) { x[i] = r.range(1, 9) * 10 + i % 7; y0[i] = r.range(-9, 9); }
    Vec ref = matvec(q.s, x);
    HVec hx(x), hy(Vec(n, 3.0)), hz(y0);
    bool g = r.chance(0.3);
    {
        Sut in;
        if (g) q.m->gemv3(2.0, hx.d, -1.0, hz.d, hy.d);
        else q.m->apply(hx.d, hy.d);
    }
    sim::add_output(hy.d, n * sizeof(double));
    for (int i = 0; i < n; i++) {
        double e = g ? 2 * ref[i] - y0[i] : ref[i];
        if (hy.d[i] != e) badv("wrong-content", "after %s the matrix (block size %d, %d block rows) gives %.17g in row %d of a product, expected %.17g", when, BS, q.s.nb, hy.d[i], i, e);
    }
    const MS &st = q.m->getRawSRMatrix();
    int b = st.nbrows != q.s.nb || st.nnzb != q.s.nnzb() || st.nbstored != q.s.nnzb();
    for (int i = 0; i < q.s.nb && !b; i++) b += st.browptr[i] != q.s.rp[i] || st.browendptr[i] != q.s.rp[i + 1] || st.diagind[i] != q.s.di[i];
    for (int k = 0; k < q.s.nnzb() && !b; k++) b += st.bcolind[k] != q.s.ci[k];
    for (size_t k = 0; k < q.s.v.size() && !b; k++) b += st.vals[(int)k] != q.s.v[k];
    if (b) badv("wrong-content", "after %s the storage of a matrix (block size %d, %d block rows) differs from what was put into it", when, BS, q.s.nb);
    q.check_wrapped();
}
static void diag_values(blasted::BSRMatrix<double, int, 1> *m, const Sys &s) {
    int nz = 0, first = -1;
    long double prod = 1, sum = 0;
    double mn = INFINITY, mx = 0;
    for (int i = 0; i < s.nb; i++) {
        double d = s.v[s.di[i]];
        if (d == 0) { nz++; if (first < 0) first = i; }
        prod *= d; sum += std::fabs(d);
        mn = std::min(mn, std::fabs(d)); mx = std::max(mx, std::fabs(d));
    }
    int z; size_t c; double pr, su, a, b;
    { Sut in; z = m->zeroDiagonalRow(); c = m->getNumZeroDiagonals(); pr = m->getDiagonalProduct(); su = m->getDiagonalAbsSum(); a = m->getAbsMinDiagonalEntry(); b = m->getAbsMaxDiagonalEntry(); }
    if (z != first) badv("diagonal-summary", "first row with a zero diagonal is %d, expected %d", z, first);
    if ((int)c != nz) badv("diagonal-summary", "%d zero diagonals counted, expected %d", (int)c, nz);
    if (!(std::fabs(pr - (double)prod) <= 1e-12 * std::fabs((double)prod))) badv("diagonal-summary", "product of the diagonal is %.17g, expected %.17Lg", pr, prod);
    if (!(std::fabs(su - (double)sum) <= 1e-12 * (double)sum)) badv("diagonal-summary", "absolute sum of the diagonal is %.17g, expected %.17Lg", su, sum);
    if (a != mn || b != mx) badv("diagonal-summary", "extreme diagonal entries are %.17g and %.17g, expected %.17g and %.17g", a, b, mn, mx);
}
template <int BS> static void diag_if(Mat<BS> &) {}
template <> void diag_if<1>(Mat<1> &q) { diag_values(q.m, q.s); }
template <int BS> static blasted::SRMatrixStorage<const double, const int> wrap_const(const Sys &, Mat<BS> &q) {
    return CS(q.rp->d, q.ci->d, q.v->d, q.di->d, q.re->d, q.s.nb, q.s.nnzb(), q.s.nnzb(), BS);
}
template <int BS> static void matrices(const Params &p, int app, Mat<BS> *shared) {
    typedef blasted::BSRMatrix<double, int, BS> M;
    Rng r(sim::mix(get(p, "hseed", 1), 17 + app));
    const int NS = 4;
    std::vector<Mat<BS>> slot(NS);
    int nops = (int)get(p, "nops", 4);
    auto create = [&](Mat<BS> &q) {
        q.drop();
        Sys s = small(r, (int)r.range(1, (int)get(p, "nb", 3)), BS, r.chance(0.8));
        int how = (int)r.below(7);
        bool ok = true;
        if (how == 0 || how == 6) {          // structure, then values
            q.hold(s);
            ok = attempt(r, p, true, "constructing a matrix", [&] {
                if (how == 0) q.m = new M(s.nb, q.ci->d, q.rp->d);
                else { q.m = new M(); q.m->setStructure(s.nb, q.ci->d, q.rp->d); }
            });
            if (ok) {
                Sut in;
                if (r.chance(0.5)) { q.m->setAllZero(); std::fill(s.v.begin(), s.v.end(), 0.0); }
                else
                    for (int i = 0; i < s.nb; i++)
                        for (int k = s.rp[i]; k < s.rp[i + 1]; k++) q.m->submitBlock(i * BS, s.ci[k] * BS, &q.v->d[(size_t)k * BS * BS], 1, 1);
            }
            q.s = s;
            if (ok && r.chance(0.5)) { q.check_wrapped(); q.rp.reset(); q.ci.reset(); q.di.reset(); q.re.reset(); q.v.reset(); }  // copied, so the originals may go
        } else if (how == 1) {               // wrapped arrays
            q.hold(s);
            q.s = s;
            ok = attempt(r, p, true, "wrapping a matrix", [&] { q.m = new M(s.nb, q.rp->d, q.ci->d, q.v->d, q.di->d); });
            q.wrapped = ok;
        } else if (how == 2) {               // raw arrays change hands
            blasted::RawBSRMatrix<double, int> raw;
            {
                Sut in;
                raw.browptr = sut_copy(s.rp); raw.bcolind = sut_copy(s.ci); raw.diagind = sut_copy(s.di); raw.vals = sut_copy(s.v);
                raw.browendptr = raw.browptr + 1;
                raw.nbrows = s.nb; raw.nnzb = raw.nbstored = s.nnzb();
            }
            ok = attempt(r, p, true, "taking over a raw matrix", [&] { q.m = new M(raw); });
            if (!ok) { Sut in; blasted::alignedDestroyRawBSRMatrix<double, int>(raw); }
            else if (raw.browptr || raw.bcolind || raw.vals || raw.diagind || raw.browendptr || raw.nbrows || raw.nnzb)
                badv("not-nulled", "a raw matrix still refers to arrays it handed over");
            q.s = s;
        } else if (how == 3) {               // storage object moved in, owning
            ok = attempt(r, p, true, "moving storage into a matrix", [&] {
                blasted::ArrayView<int> rp((int)s.rp.size()), ci((int)s.ci.size()), di(s.nb), re(s.nb);
                blasted::ArrayView<double> v((int)s.v.size());
                fill(rp, s.rp); fill(ci, s.ci); fill(di, s.di); fill(v, s.v);
                fill(re, std::vector<int>(s.rp.begin() + 1, s.rp.end()));
                MS st(std::move(rp), std::move(ci), std::move(v), std::move(di), std::move(re), s.nb, s.nnzb(), s.nnzb());
                q.m = new M(std::move(st));
            });
            q.s = s;
        } else if (how == 4) {               // storage object moved in, wrapping
            q.hold(s);
            ok = attempt(r, p, true, "moving storage into a matrix", [&] {
                MS st(q.rp->d, q.ci->d, q.v->d, q.di->d, q.re->d, s.nb, s.nnzb(), s.nnzb(), BS);
                q.m = new M(std::move(st));
            });
            q.s = s;
            q.wrapped = ok;
        } else {                             // deep copy of another one
            Mat<BS> *o = shared && r.chance(0.5) ? shared : &slot[r.below(NS)];
            if (o == &q || !o->usable) return;
            q.s = o->s;
            ok = attempt(r, p, true, "copying a matrix", [&] { q.m = new M(*o->m); });
            if (ok) { q.scaled = o->scaled; }
        }
        q.usable = ok;
        if (!ok && how == 6 && q.m) {        // the object exists but has no structure: try again
            if (r.chance(0.5)) {
                if (attempt(r, p, false, "setting the structure again", [&] { q.m->setStructure(s.nb, q.ci->d, q.rp->d); q.m->setAllZero(); })) {
                    std::fill(s.v.begin(), s.v.end(), 0.0);
                    q.s = s;
                    q.usable = true;
                }
            }
        } else if (!ok)
            q.m = nullptr;
    };
    for (int op = 0; op < nops; op++) {
        Mat<BS> &q = slot[r.below(NS)];
        if (!q.usable || r.chance(0.2)) {
            create(q);
            check_mat(q, r, "creation");
        } else {
            Sys &s = q.s;
            int w = (int)r.below(9);
            const char *nm = "a change";
            if (w == 0) { Sut in; q.m->setAllZero(); std::fill(s.v.begin(), s.v.end(), 0.0); nm = "setAllZero"; }
            else if (w == 1 && diag_full(s)) {
                Sut in;
                q.m->setDiagZero();
                nm = "setDiagZero";
                for (int i = 0; i < s.nb; i++)
                    for (int e = 0; e < BS * BS; e++) s.v[(size_t)s.di[i] * BS * BS + e] = 0;
            } else if (w == 2 && q.scaled < 6) {
                q.scaled++;
                double f = (double)r.range(-3, 3);
                Sut in;
                q.m->scaleAll(f);
                nm = "scaleAll";
                for (auto &x : s.v) x *= f;
            } else if (w <= 5) {             // one block set or added, present or (block matrices only) absent
                int i = (int)r.below(s.nb), j = BS == 1 ? -1 : (int)r.below(s.nb), k = -1;
                if (BS == 1 || r.chance(0.8)) {
                    if (s.rp[i + 1] == s.rp[i]) continue;
                    k = s.rp[i] + (int)r.below(s.rp[i + 1] - s.rp[i]);
                    j = s.ci[k];
                } else k = s.find(i, j);
                Vec b(BS * BS);
                for (auto &x : b) x = r.range(-9, 9);
                HVec hb(b);
                bool set = w == 3, dg = w == 5 && diag_full(s);
                if (dg) k = s.di[i];
                {
                    Sut in;
                    if (set) q.m->submitBlock(i * BS, j * BS, hb.d, 1, 1);
                    else if (dg) q.m->updateDiagBlock(i * BS, hb.d, 1);
                    else q.m->updateBlock(i * BS, j * BS, hb.d, 1, 1);
                }
                nm = set ? "submitBlock" : dg ? "updateDiagBlock" : "updateBlock";
                if (k >= 0)
                    for (int e = 0; e < BS * BS; e++) {
                        double &x = s.v[(size_t)k * BS * BS + e];
                        x = set ? b[e] : x + b[e];
                    }
                hb.check_unmodified("assembly");
            } else if (w == 6) {             // new structure on a used object
                Sys t = small(r, (int)r.range(1, (int)get(p, "nb", 3)), BS, r.chance(0.8));
                Mat<BS> tmp;
                tmp.hold(t);
                if (q.v) q.check_wrapped();
                bool ok = attempt(r, p, true, "setting a new structure", [&] { q.m->setStructure(t.nb, tmp.ci->d, tmp.rp->d); });
                if (q.v) { q.wrapped = false; }
                q.usable = ok;
                if (ok) {
                    Sut in;
                    q.m->setAllZero();
                    std::fill(t.v.begin(), t.v.end(), 0.0);
                    q.s = t;
                    q.scaled = 0;
                }
                nm = "setStructure";
            } else if (w == 7 && BS == 1 && diag_full(s)) {
                diag_if<BS>(q);
                nm = "reading the diagonal";
            } else if (w == 8) {             // comparison
                Mat<BS> tmp;                  // another matrix of the same structure, made in another way
                bool fresh = r.chance(0.6);
                if (fresh) {
                    Sys t = s;
                    if (r.chance(0.5)) t.v[r.below(t.v.size())] += r.chance(0.5) ? 1 : -1;
                    tmp.hold(t);
                    tmp.s = t;
                    Sut in;
                    if (r.chance(0.5)) {
                        tmp.m = new M(t.nb, tmp.ci->d, tmp.rp->d);
                        for (int i = 0; i < t.nb; i++)
                            for (int k = t.rp[i]; k < t.rp[i + 1]; k++) tmp.m->submitBlock(i * BS, t.ci[k] * BS, &tmp.v->d[(size_t)k * BS * BS], 1, 1);
                    } else tmp.m = new M(t.nb, tmp.rp->d, tmp.ci->d, tmp.v->d, tmp.di->d);
                    tmp.usable = true;
                }
                Mat<BS> &o = fresh ? tmp : slot[r.below(NS)];
                if (!o.usable) continue;
                bool exp[5];
                exp[0] = s.nb == o.s.nb;
                exp[1] = exp[0] && s.rp == o.s.rp;
                exp[2] = exp[1] && s.ci == o.s.ci;
                exp[3] = exp[2] && s.v == o.s.v;
                exp[4] = exp[2] && s.di == o.s.di;
                std::array<bool, 5> got;
                { Sut in; got = q.m->isEqual(*o.m, 0.25); }
                bool all = got[0] && got[1] && got[2] && got[3] && got[4], want = exp[0] && exp[1] && exp[2] && exp[3];
                if (all != want) badv("equality", "comparison of two matrices says %d%d%d%d%d, but they are %s", got[0], got[1], got[2], got[3], got[4], want ? "equal" : "different");
                if (exp[2] && (got[3] != exp[3] || !got[0] || !got[1] || !got[2] || !got[4]))
                    badv("equality", "comparison of two matrices of the same structure says %d%d%d%d%d (values %s)", got[0], got[1], got[2], got[3], got[4], exp[3] ? "equal" : "different");
                nm = "comparison";
                if (fresh) tmp.drop();
            }
            check_mat(q, r, nm);
        }
        if (r.chance(0.25)) check_mat(slot[r.below(NS)], r, "operations on other matrices");
        if (shared && r.chance(0.3)) {
            int n = shared->s.n();
            HVec x(Vec(n, 1.0)), y(Vec(n, 0.0));
            { Sut in; shared->m->apply(x.d, y.d); }
            Vec ref = matvec(shared->s, Vec(n, 1.0));
            for (int i = 0; i < n; i++)
                if (y.d[i] != ref[i]) badv("wrong-content", "a shared matrix gives %.17g in row %d, expected %.17g", y.d[i], i, ref[i]);
        }
    }
    for (auto &q : slot) check_mat(q, r, "the history");
    for (int i = 0; i < NS; i++) slot[(i + app) % NS].drop();
}

// ---- storage objects
template <class St> static void check_store(const St &st, const Sys &s, const std::vector<int> &rp, const std::vector<int> &re, const char *what) {
    int nnz = 0;
    for (int i = 0; i < s.nb; i++) nnz += re[i] - rp[i];
    if (st.nbrows != s.nb || st.nnzb != nnz || st.nbstored != s.nnzb())
        badv("wrong-content", "%s: %d rows, %d blocks, %d stored, expected %d, %d, %d", what, (int)st.nbrows, (int)st.nnzb, (int)st.nbstored, s.nb, nnz, s.nnzb());
    int b = 0;
    for (int i = 0; i < s.nb; i++)
        if (st.browptr[i] != rp[i] || st.browendptr[i] != re[i] || st.diagind[i] != s.di[i]) b++;
    for (int k = 0; k < s.nnzb(); k++)
        if (st.bcolind[k] != s.ci[k]) b++;
    for (size_t k = 0; k < s.v.size(); k++)
        if (st.vals[(int)k] != s.v[k]) b++;
    if (b) badv("wrong-content", "%s: %d entries differ from the matrix stored in it", what, b);
}
static void storages(const Params &p, int app) {
    Rng r(sim::mix(get(p, "hseed", 1), 170 + app));
    int bs = (int)get(p, "bs", 1);
    for (int op = 0; op < (int)get(p, "nops", 4); op += 3) {
        Sys s = small(r, r.range(1, (int)get(p, "nb", 3)), bs, true);
        for (int k = s.rp[s.nb - 1]; k < s.rp[s.nb]; k++)
            if (s.ci[k] == s.nb - 1) s.di[s.nb - 1] = k;
        std::vector<int> rp(s.rp.begin(), s.rp.end() - 1), re(s.rp.begin() + 1, s.rp.end());
        HInts hrp(s.rp), hci(s.ci), hdi(s.di), hre(re);
        HVec hv(s.v, 64);
        std::unique_ptr<MS> a, b;
        std::unique_ptr<CS> c, d;
        bool own = r.chance(0.6);
        bool ok = attempt(r, p, true, "creating storage", [&] {
            if (own) {
                blasted::ArrayView<int> vrp((int)s.rp.size()), vci((int)s.ci.size()), vdi(s.nb), vre(s.nb);
                blasted::ArrayView<double> vv((int)s.v.size());
                fill(vrp, s.rp); fill(vci, s.ci); fill(vdi, s.di); fill(vre, re); fill(vv, s.v);
                a.reset(new MS(std::move(vrp), std::move(vci), std::move(vv), std::move(vdi), std::move(vre), s.nb, s.nnzb(), s.nnzb()));
            } else
                a.reset(new MS(hrp.d, hci.d, hv.d, hdi.d, hre.d, s.nb, s.nnzb(), s.nnzb(), bs));
        });
        if (!ok) continue;
        check_store(*a, s, rp, re, "new storage");
        if (r.chance(0.5)) {
            if (!attempt(r, p, true, "moving storage", [&] { b.reset(new MS(std::move(*a))); })) { check_store(*a, s, rp, re, "storage after a failed move"); }
            else {
                if (a->vals.size() || a->browptr.size()) badv("not-nulled", "moved-from storage still refers to arrays");
                if (r.chance(0.5)) { Sut in; a.reset(); }
                check_store(*b, s, rp, re, "moved storage");
                { Sut in; a = std::move(b); }
            }
        }
        if (r.chance(0.6)) {                 // an immutable companion of the same arrays
            if (attempt(r, p, true, "sharing storage", [&] { c.reset(new CS(blasted::share_with_const<double, int>(*a, bs))); })) {
                check_store(*c, s, rp, re, "shared storage");
                size_t k = r.below(s.v.size());
                { Sut in; a->vals[(int)k] = 77.0; }
                s.v[k] = 77;
                if (!own) hv.orig[k] = 77;
                check_store(*c, s, rp, re, "shared storage after a change");
                if (r.chance(0.5)) { Sut in; c.reset(); }
            }
            check_store(*a, s, rp, re, "storage after sharing");
            { Sut in; c.reset(); }
        }
        if (!attempt(r, p, true, "making storage immutable", [&] { c.reset(new CS(blasted::move_to_const<double, int>(std::move(*a)))); })) c.reset();
        if (c) {
            if (a->nbrows || a->vals.size() || a->browptr.size() || a->bcolind.size() || a->diagind.size() || a->browendptr.size())
                badv("not-nulled", "storage moved to an immutable object still refers to arrays");
            { Sut in; a.reset(); }
            check_store(*c, s, rp, re, "immutable storage");
            if (r.chance(0.7)) {
                bool low = r.chance(0.5);
                bool last = re[s.nb - 1] == s.di[s.nb - 1] + 1;
                if (low || last)
                    if (attempt(r, p, true, "taking a triangular view", [&] {
                            d.reset(new CS(low ? blasted::getLowerTriangularView<double, int>(std::move(*c)) : blasted::getUpperTriangularView<double, int>(std::move(*c))));
                        })) {
                        std::vector<int> vr = rp, ve = re;
                        for (int i = 0; i < s.nb; i++) { if (low) ve[i] = s.di[i] + 1; else vr[i] = s.di[i]; }
                        check_store(*d, s, vr, ve, low ? "lower triangular view" : "upper triangular view");
                        { Sut in; d.reset(); }
                    }
                check_store(*c, s, rp, re, "storage after taking a view");
            }
            blasted::CRawBSRMatrix<double, int> raw;
            { Sut in; raw = blasted::createRawView<double, int>(std::move(*c)); }
            check_store(raw, s, rp, re, "raw view");
            check_store(*c, s, rp, re, "storage after taking a raw view");
            if (r.chance(0.5)) {
                if (attempt(r, p, true, "moving storage", [&] { d.reset(new CS(std::move(*c))); })) {
                    { Sut in; c.reset(); }
                    check_store(*d, s, rp, re, "moved storage");
                    { Sut in; d.reset(); }
                }
            }
        }
        { Sut in; c.reset(); a.reset(); b.reset(); d.reset(); }
        for (size_t k = 0; k < s.v.size(); k++)
            if (hv.d[k] != hv.orig[k]) badv("foreign-change", "a wrapped value array changed at %zu", k);
        if (memcmp(hrp.d, s.rp.data(), s.rp.size() * 4) || memcmp(hci.d, s.ci.data(), s.ci.size() * 4)) badv("foreign-change", "a wrapped structure array changed");
    }
}

// ---- array views
static void views(const Params &p, int app) {
    Rng r(sim::mix(get(p, "hseed", 1), 1700 + app));
    typedef blasted::ArrayView<double> AV;
    const int NS = 3, NB = 3;
    std::vector<std::unique_ptr<HVec>> buf;
    std::vector<Vec> bv;
    for (int i = 0; i < NB; i++) {
        Vec v(r.range(1, 6));
        for (auto &x : v) x = r.range(-99, 99);
        bv.push_back(v);
        buf.emplace_back(new HVec(v));
    }
    struct V { AV *a = nullptr; int ext = -1; Vec own; int n = 0; };
    std::vector<V> s(NS);
    auto ref = [&](V &v, int i) -> double & { return v.ext >= 0 ? bv[v.ext][i] : v.own[i]; };
    auto setall = [&](V &v) {
        Sut in;
        for (int i = 0; i < v.n; i++) { double x = r.range(-99, 99); (*v.a)[i] = x; ref(v, i) = x; }
    };
    for (int op = 0; op < 2 * (int)get(p, "nops", 4); op++) {
        V &v = s[r.below(NS)];
        if (!v.a) {
            int how = (int)r.below(5);
            V n;
            bool ok = true;
            if (how == 0) ok = attempt(r, p, true, "an empty array", [&] { n.a = new AV(); });
            else if (how == 1) {
                n.n = r.range(0, 6);
                ok = attempt(r, p, true, "allocating an array", [&] { n.a = new AV(n.n); });
                n.own.assign(n.n, 0);
            } else if (how == 2 || how == 3) {
                n.ext = (int)r.below(NB);
                n.n = (int)bv[n.ext].size();
                ok = attempt(r, p, true, "wrapping an array", [&] { n.a = how == 2 ? new AV(buf[n.ext]->d, n.n) : new AV(buf[n.ext]->d, n.n, false); });
            } else {
                n.own.assign(r.range(1, 5), 0);
                for (auto &x : n.own) x = r.range(-99, 99);
                n.n = (int)n.own.size();
                double *q;
                { Sut in; q = sut_copy(n.own); }
                ok = attempt(r, p, true, "taking over an array", [&] { n.a = new AV(q, n.n, true); });
                if (!ok) { Sut in; boost::alignment::aligned_free(q); }
            }
            if (!ok) continue;
            v = n;
            if (how == 1) setall(v);
        } else {
            int w = (int)r.below(6);
            if (w == 0) { { Sut in; delete v.a; } v = V(); continue; }
            if (w == 1) {
                int n = r.range(0, 6);
                if (attempt(r, p, true, "resizing an array", [&] { v.a->resize(n); })) { v.ext = -1; v.n = n; v.own.assign(n, 0); setall(v); }
                else {       // must not keep what it gave up; may be resized again
                    attempt(r, p, false, "resizing an array again", [&] { v.a->resize(n); });
                    v.ext = -1; v.n = n; v.own.assign(n, 0);
                    setall(v);
                }
            }
            if (w == 2) { int e = (int)r.below(NB); { Sut in; v.a->wrap(buf[e]->d, (int)bv[e].size()); } v.ext = e; v.n = (int)bv[e].size(); }
            if (w == 3) {
                Vec o(r.range(1, 5));
                for (auto &x : o) x = r.range(-99, 99);
                { Sut in; double *q = sut_copy(o); v.a->take_control(q, (int)o.size()); }
                v.ext = -1; v.own = o; v.n = (int)o.size();
            }
            if (w == 4) {
                V &t = s[r.below(NS)];
                if (!t.a) {
                    V n = v;
                    if (attempt(r, p, true, "moving an array", [&] { n.a = new AV(std::move(*v.a)); })) {
                        t = n;
                        if (v.a->size() != 0) badv("not-nulled", "a moved-from array still has %d entries", v.a->size());
                        v.ext = -1; v.n = 0; v.own.clear();
                    }
                }
            }
            if (w == 5) setall(v);
        }
        for (auto &q : s) {
            if (!q.a) continue;
            if (q.a->size() != q.n) badv("wrong-content", "an array has %d entries, expected %d", q.a->size(), q.n);
            for (int i = 0; i < q.n; i++) {
                double x;
                { Sut in; x = (*(const AV *)q.a)[i]; }
                if (x != ref(q, i)) badv("wrong-content", "entry %d of an array is %g, expected %g", i, x, ref(q, i));
            }
        }
        for (int i = 0; i < NB; i++)
            for (size_t k = 0; k < bv[i].size(); k++)
                if (buf[i]->d[k] != bv[i][k]) badv("foreign-change", "a wrapped array changed at %zu", k);
    }
    for (auto &q : s) { Sut in; delete q.a; }
}
template <int BS> static void run_matrices(const Params &p) {
    if (get(p, "apps", 1) < 2) { matrices<BS>(p, 0, nullptr); return; }
    Rng r(get(p, "hseed", 1));
    Mat<BS> sh;
    sh.s = small(r, (int)get(p, "nb", 2), BS, true);
    sh.hold(sh.s);
    { Sut in; sh.m = new blasted::BSRMatrix<double, int, BS>(sh.s.nb, sh.rp->d, sh.ci->d, sh.v->d, sh.di->d); }
    sh.usable = sh.wrapped = true;
    sim::spawn([&] { matrices<BS>(p, 1, &sh); });
    matrices<BS>(p, 0, &sh);
    sim::join_all();
    sh.check_wrapped();
    sh.drop();
}
static void body_p18(const Params &p) {
    int mode = (int)get(p, "mode"), bs = (int)get(p, "bs", 1);
    if (mode == 0) {
        if (bs == 1) run_matrices<1>(p);
        if (bs == 3) run_matrices<3>(p);
        if (bs == 7) run_matrices<7>(p);
    } else {
        auto f = mode == 1 ? storages : views;
        if (get(p, "apps", 1) > 1) sim::spawn([&] { f(p, 1); });
        f(p, 0);
        sim::join_all();
    }
    if (sim::live_sut_allocs()) bad("leak", "memory owned by destroyed matrix objects is never released: %s", sim::describe_live().c_str());
}
extern const Workload w_p18{"P18", gen_p18, body_p18, nullptr, false};
