// P01-P06, P10, P11: preconditioners and relaxations.
#include <omp.h>
#include "wl.h"
#include <cstdio>

using namespace model;

static std::string where_str(const double *a, const Vec &b, int w) {
    char t[160];
    snprintf(t, sizeof t, "entry %d of %zu is %.17g, expected %.17g", w, b.size(), a[w], b[w]);
    return t;
}
static std::string desc(const Params &p) {
    char t[200];
    snprintf(t, sizeof t, "%s, n=%d blocks of %d, %d threads", type_names[get(p, "type")], (int)get(p, "nb"), (int)get(p, "bs"),
             (int)get(p, "nthreads"));
    return t;
}
static void expect(const char *cls, const Params &p, const char *what, const HVec &z, const Vec &ref, double tol) {
    sim::add_output(z.d, z.n * sizeof(double));
    int w = 0;
    if (!close(z.d, ref, tol, &w)) badv(cls, "%s: %s: %s", what, desc(p).c_str(), where_str(z.d, ref, w).c_str());
}
static void common_checks(const Held &h, const HVec &r, const char *what) {
    h.check_unmodified(what);
    r.check_unmodified(what);
}
// an output vector filled with junk, as a fresh vector of the application would be
static Vec junk(Rng &r, int n) {
    Vec v(n);
    for (auto &x : v) x = 1e3 * (r.unit() - 0.5);
    return v;
}

// ------------------------------------------------------------------ P01
static Params gen_p01(Rng &r, int) {
    Params p;
    static const int types[] = {T_SAPILU0, T_SAPILU0, T_ILU0, T_ALEVELILU0};
    p["type"] = types[r.below(4)];
    SysOpt o;
    o.units = true;
    o.symmetric = p["type"] == T_ALEVELILU0 ? true : r.chance(0.5);
    o.max1 = 12;
    o.max4 = 4;
    o.min_nb = 2;
    o.big1 = 36; o.big4 = 9; o.pbig = 0.004; o.huge1 = 160; o.huge4 = 40;
    gen_sys_params(p, r, o);
    gen_run_params(p, r, 2);
    p["chunk"] = gen_chunk(p, r);
    p["scale"] = r.below(2);
    p["ndiag"] = p["scale"] ? 0 : r.chance(0.3);
    p["finit"] = (int)r.below(4);
    p["ainit"] = (int)r.below(2);
    p["extra"] = r.chance(0.6) ? 0 : r.range(1, 3);
    p["recompute"] = r.chance(0.3);
    p["info"] = r.chance(0.2);
    return p;
}
static void body_p01(const Params &p) {
    Sys s = make_sys(p);
    Ilu ref = ilu0(s, get(p, "scale"));
    if (!ref.ok) { sim::set_trivial(); return; }
    Held h(s, (int)get(p, "align", 64));
    Settings st;
    st.type = (int)get(p, "type");
    st.chunk = (int)get(p, "chunk", 1);
    st.scale = get(p, "scale");
    st.finit = (int)get(p, "finit");
    st.ainit = (int)get(p, "ainit");
    st.info = get(p, "info");
    st.bsw = sweeps_for(ilu_depth(s), p, (int)get(p, "extra"));
    st.asw = st.type == T_ILU0 ? sweeps_for(tri_depth(s), p) : 1;
    Rng r(get(p, "vseed", 1));
    Prec pc(h, st);
    pc.compute();
    if (get(p, "recompute")) pc.compute();
    for (int q = 0; q < 2; q++) {
        Vec rv = gen_rhs(r, s);
        HVec rr(rv), z(junk(r, s.n()));
        pc.apply(rr, z);
        expect("ilu-not-exact", p, "after enough build sweeps the preconditioner is not the exact ILU(0)", z, ilu_solve(ref, rv), tol_for(s));
        common_checks(h, rr, "ILU(0)");
    }
}

// ------------------------------------------------------------------ P02
static Params gen_p02(Rng &r, int) {
    Params p;
    static const int types[] = {T_SFILU0, T_SFILU0, T_SGS, T_SGS, T_ILU0};
    p["type"] = types[r.below(5)];
    SysOpt o;
    o.units = true;
    o.symmetric = r.chance(0.5);
    o.max1 = 14;
    o.max4 = 5;
    o.min_nb = 2;
    o.big1 = 48; o.big4 = 10; o.pbig = 0.006;
    gen_sys_params(p, r, o);
    gen_run_params(p, r, 2);
    p["chunk"] = gen_chunk(p, r);
    p["scale"] = r.below(2);
    p["ndiag"] = p["scale"] ? 0 : r.chance(0.3);
    p["finit"] = 1 + (int)r.below(2);
    p["ainit"] = p["type"] == T_SGS ? (int)r.below(3) : (int)r.below(2);
    p["extra"] = r.chance(0.7) ? 0 : r.range(1, 3);
    p["napply"] = r.range(1, 3);
    return p;
}
static void body_p02(const Params &p) {
    Sys s = make_sys(p);
    int type = (int)get(p, "type");
    bool scale = get(p, "scale");
    Ilu ref;
    if (type != T_SGS) {
        ref = ilu0(s, scale);
        if (!ref.ok) { sim::set_trivial(); return; }
    }
    Held h(s, (int)get(p, "align", 64));
    Settings st;
    st.type = type;
    st.chunk = (int)get(p, "chunk", 1);
    st.scale = scale;
    st.finit = (int)get(p, "finit", 1);
    st.ainit = (int)get(p, "ainit");
    st.bsw = type == T_ILU0 ? sweeps_for(ilu_depth(s), p) : 1;
    st.asw = sweeps_for(tri_depth(s), p, (int)get(p, "extra"));
    Rng r(get(p, "vseed", 1));
    Prec pc(h, st);
    pc.compute();
    for (int q = 0; q < (int)get(p, "napply", 1); q++) {
        Vec rv = gen_rhs(r, s);
        HVec rr(rv), z(junk(r, s.n()));
        pc.apply(rr, z);
        expect("solve-not-exact", p, "after enough application sweeps the triangular solves are not exact", z,
               type == T_SGS ? sgs(s, rv) : ilu_solve(ref, rv), tol_for(s));
        common_checks(h, rr, "apply");
    }
}

// ------------------------------------------------------------------ P03
static Params gen_p03(Rng &r, int) {
    Params p;
    p["type"] = r.chance(0.55) ? T_LEVELSGS : T_ALEVELILU0;
    p["relax"] = p["type"] == T_LEVELSGS && r.chance(0.5);
    SysOpt o;
    o.units = true;
    o.symmetric = true;
    o.max1 = 20;
    o.max4 = 7;
    o.big1 = 60; o.big4 = 14; o.pbig = 0.006;
    gen_sys_params(p, r, o);
    gen_run_params(p, r, 2);
    p["chunk"] = gen_chunk(p, r);
    p["scale"] = r.below(2);
    p["ndiag"] = p["scale"] ? 0 : r.chance(0.3);
    p["finit"] = 1 + (int)r.below(2);
    p["steps"] = r.chance(0.05) ? 0 : r.range(1, 3);
    p["ctol"] = r.chance(0.3);
    p["napply"] = r.range(1, 3);
    p["asw"] = r.range(1, 3);
    return p;
}
static void body_p03(const Params &p) {
    Sys s = make_sys(p);
    int type = (int)get(p, "type");
    bool scale = get(p, "scale"), relax = get(p, "relax");
    Ilu ref;
    if (type == T_ALEVELILU0) {
        ref = ilu0(s, scale);
        if (!ref.ok) { sim::set_trivial(); return; }
    }
    Held h(s, (int)get(p, "align", 64));
    Settings st;
    st.type = type;
    st.chunk = (int)get(p, "chunk", 1);
    st.scale = scale;
    st.finit = (int)get(p, "finit", 1);
    st.bsw = sweeps_for(ilu_depth(s), p);
    st.asw = (int)get(p, "asw", 1);
    st.relax = relax;
    Rng r(get(p, "vseed", 1));
    Prec pc(h, st);
    pc.compute();
    for (int q = 0; q < (int)get(p, "napply", 1); q++) {
        Vec rv = gen_rhs(r, s);
        HVec rr(rv);
        if (relax) {
            Vec x0 = gen_vec(r, s.n()), x = x0;
            auto di = diag_inv(s);
            int steps = (int)get(p, "steps", 1);
            for (int k = 0; k < steps; k++) {
                gs_sweep(s, di, rv, x, true);
                gs_sweep(s, di, rv, x, false);
            }
            HVec z(x0);
            pc.relax(rr, z, steps, get(p, "ctol"));
            expect("level-differs", p, "level-scheduled relaxation differs from the sequential sweeps", z, x, tol_for(s));
            common_checks(h, rr, "level-scheduled relaxation");
        } else {
            HVec z(junk(r, s.n()));
            pc.apply(rr, z);
            expect("level-differs", p, "level-scheduled application differs from the sequential one", z,
                   type == T_LEVELSGS ? sgs(s, rv) : ilu_solve(ref, rv), tol_for(s));
            common_checks(h, rr, "level-scheduled application");
        }
    }
}

// Every entry of the result must be one (last) update from values that the other entries really held. The entries of one
// block row may stem from different updates, as nothing keeps two sweeps from being at the same row.
static void check_updates(const Params &p, const Sys &s, const Vec &b, const double *z, bool upper_only, const char *what) {
    auto di = diag_inv(s);
    std::vector<double> vals;
    Vec lo(s.n()), hi(s.n()), mag(s.n());
    for (int bi = 0; bi < s.nb; bi++) {
        std::vector<Vec> terms;
        double combos = 1;
        bool all = s.bs == 1;
        for (int c = 0; c < s.bs; c++) {
            int i = bi * s.bs + c;
            lo[i] = hi[i] = b[i];
            mag[i] = std::fabs(b[i]);
            for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++) {
                if (s.ci[k] == bi || (upper_only && s.ci[k] < bi)) continue;
                for (int d = 0; d < s.bs; d++) {
                    double a = s.at(k, c, d), l, h;
                    all = sim::watched(s.ci[k] * s.bs + d, vals, l, h) && all;
                    lo[i] -= a * (a > 0 ? h : l);
                    hi[i] -= a * (a > 0 ? l : h);
                    mag[i] += std::fabs(a) * std::max(std::fabs(l), std::fabs(h));
                    for (auto &x : vals) x *= a;
                    combos *= vals.size();
                    terms.push_back(vals);
                }
            }
        }
        double dmax = 0, bmag = 0;   // the entries of the inverse are exact to rounding of the largest one only
        for (int c = 0; c < s.bs; c++) {
            bmag += mag[bi * s.bs + c];
            for (int d = 0; d < s.bs; d++) dmax = std::max(dmax, std::fabs(di[bi](c, d)));
        }
        for (int c = 0; c < s.bs; c++) {
            int i = bi * s.bs + c;
            double l = 0, h = 0, m = 0;
            for (int d = 0; d < s.bs; d++) {
                double a = di[bi](c, d);
                int j = bi * s.bs + d;
                l += a * (a > 0 ? lo[j] : hi[j]);
                h += a * (a > 0 ? hi[j] : lo[j]);
                m += std::fabs(a) * mag[j];
            }
            double tol = 1e-9 * m + (s.bs > 1 ? 1e-12 * dmax * bmag : 0) + 1e-290;
            if (!(z[i] >= l - tol) || !(z[i] <= h + tol))
                badv("not-an-update", "%s: entry %d of the %s is %.17g: no update of its row from values the vector held gives more than %.17g or less than %.17g",
                     desc(p).c_str(), i, what, z[i], h, l);
            if (!all || combos > 20000) continue;
            std::vector<size_t> at(terms.size(), 0);
            bool ok = false;
            while (!ok) {
                double v = b[i];
                for (size_t k = 0; k < terms.size(); k++) v -= terms[k][at[k]];
                if (std::fabs(v * di[bi](0, 0) - z[i]) <= tol) ok = true;
                size_t k = 0;
                while (k < terms.size() && ++at[k] == terms[k].size()) at[k++] = 0;
                if (k == terms.size()) break;
            }
            if (!ok)
                badv("not-an-update", "%s: entry %d of the %s is %.17g: no update of its row from any values the vector held (%g combinations)",
                     desc(p).c_str(), i, what, z[i], combos);
        }
    }
}

// Every sweep relaxes every row: a row is stored once in every sweep, or, where an implementation leaves out storing what
// is there already, its right-hand side and the entries it depends on are at least read for it.
static void check_sweeps(const Params &p, const Sys &s, int sweeps, const char *what) {
    Vec col(s.nb, 0);
    for (int i = 0; i < s.nb; i++)
        for (int k = s.rp[i]; k < s.rp[i + 1]; k++) if (s.ci[k] != i) col[s.ci[k]]++;
    for (int i = 0; i < s.n(); i++) {
        int bi = i / s.bs, stores = sim::watched_stores(i);
        if (stores >= sweeps || sim::input_reads(i) >= sweeps) continue;
        bool shortage = true;
        for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++)
            if (s.bs == 1 && s.ci[k] != bi) shortage = shortage && sim::watched_reads(s.ci[k]) < sweeps * col[s.ci[k]];
        if (shortage)
            badv("row-skipped", "%s: entry %d was relaxed %d times in the %d sweeps of the %s", desc(p).c_str(), i, stores, sweeps, what);
    }
}

// The method works in a vector of its own and hands over the result only: the stores say nothing then.
static bool works_elsewhere(const Sys &s, int sweeps) {
    for (int i = 0; i < s.n(); i++)
        if (sim::watched_stores(i) >= sweeps || sim::input_reads(i) < sweeps) return false;
    return true;
}

// ------------------------------------------------------------------ P04
static Params gen_p04(Rng &r, int) {
    Params p;
    p["mode"] = (int)r.below(3);  // 0: gs apply, 1: gs relax, 2: sgs relax
    p["type"] = p["mode"] == 2 ? T_SGS : T_GS;
    SysOpt o;
    o.units = true;
    o.symmetric = r.chance(0.5);
    o.max1 = 14;
    o.max4 = 5;
    gen_sys_params(p, r, o);
    gen_run_params(p, r, 2);
    if (r.chance(0.4)) p["lag"] = -1;
    p["ndiag"] = r.chance(0.3);
    p["chunk"] = gen_chunk(p, r);
    p["rho"] = r.range(20, 95);
    p["steps"] = r.chance(0.5) ? r.range(1, 3) : r.range(4, 12);
    if (p["mode"] != 0 && r.chance(0.03)) p["steps"] = 0;
    p["ctol"] = r.chance(0.2);
    return p;
}
static void body_p04(const Params &p) {
    Sys s = make_sys(p);
    scale_offdiag_to_rho(s, get(p, "rho", 80) / 100.0);
    double ro = rho(s);
    Held h(s, (int)get(p, "align", 64));
    int mode = (int)get(p, "mode"), steps = (int)get(p, "steps", 1);
    Settings st;
    st.type = mode == 2 ? T_SGS : T_GS;
    st.chunk = (int)get(p, "chunk", 1);
    st.relax = mode != 0;
    st.asw = mode == 0 ? steps : 1;
    Rng r(get(p, "vseed", 1));
    Prec pc(h, st);
    pc.compute();
    Vec b = gen_rhs(r, s), x0 = gen_vec(r, s.n());
    for (auto &v : x0) v *= 10;
    Vec xs = solve(s, b);
    HVec bb(b), x(x0);
    bool seen = steps && s.n() <= 200 && !get(p, "inregion");
    if (seen) sim::watch(x.d, x.n, true, s.bs);
    if (seen) sim::watch_input(bb.d, bb.n);
    if (mode == 0) pc.apply(bb, x);
    else pc.relax(bb, x, steps, get(p, "ctol"));
    sim::add_output(x.d, x.n * sizeof(double));
    if (seen && !works_elsewhere(s, mode == 2 ? 2 * steps : steps)) check_updates(p, s, b, x.d, false, "relaxed vector");
    if (seen) check_sweeps(p, s, mode == 2 ? 2 * steps : steps, mode == 0 ? "application" : "relaxation");
    sim::watch_end();
    double e0 = 0, e = maxdiff(x.d, xs);
    for (int i = 0; i < s.n(); i++) e0 = std::max(e0, std::fabs(x0[i] - xs[i]));
    if (steps == 0) {
        if (memcmp(x.d, x0.data(), s.n() * sizeof(double))) badv("no-contraction", "%s: no sweeps, yet the vector changed", desc(p).c_str());
        common_checks(h, bb, "relaxation");
        return;
    }
    int shares = mode == 2 ? 2 * steps : steps, lag = lag_of(p);
    if (lag >= 0 && sim::sweeps_guessed()) lag = 2 * lag + 2;
    int ex = lag < 0 ? 1 : 1 + (shares - 1) / (2 * lag + 3);
    if (seen) ex = std::max(ex, sim::watched_epochs());
    double bound = std::pow(ro, ex) * e0 + 1e-10 * (e0 + maxabs(xs));
    if (!(e <= bound))
        badv("no-contraction", "%s, %d sweeps: error %.6g is larger than rho^%d * e0 = %.6g (rho=%.4g, e0=%.6g)", desc(p).c_str(), shares, e, ex,
            bound, ro, e0);
    common_checks(h, bb, "relaxation");
}

// ------------------------------------------------------------------ P05
static Params gen_p05(Rng &r, int) {
    Params p;
    static const int types[] = {T_ILU0, T_ILU0, T_SFILU0, T_SAPILU0, T_SGS, T_SGS, T_CSCBGS, T_CSCBGS, T_CSCBGS, T_GS, T_ALEVELILU0};
    p["type"] = types[r.below(11)];
    SysOpt o;
    o.units = true;
    o.symmetric = p["type"] == T_ALEVELILU0 ? true : r.chance(0.5);
    o.kind = K_MMATRIX;
    o.max1 = 14;
    o.max4 = 5;
    o.blocks = p["type"] != T_CSCBGS;
    gen_sys_params(p, r, o);
    gen_run_params(p, r, 2);
    p["dom"] = r.range(50, 97);
    p["sdiag"] = 0;
    p["lag"] = -1;
    p["chunk"] = gen_chunk(p, r);
    p["scale"] = r.below(2);
    if (!p["scale"] && p["type"] != T_SGS && p["type"] != T_CSCBGS && p["type"] != T_GS)
        p["gexp"] = p["rexp"] = 0;   // the initial guesses of an unscaled factorisation are bounds for diagonals up to one only
    p["finit"] = 1 + (int)r.below(2);
    p["ainit"] = (int)r.below(2);
    p["relax"] = (p["type"] == T_GS || p["type"] == T_SGS) && r.chance(0.4);
    p["bsw"] = r.range(1, 4);
    p["asw"] = r.range(1, 4);
    p["napply"] = r.range(1, 2);
    if (p["type"] == T_SGS && !p["relax"] && r.chance(0.4)) {   // continues from what the last application left
        p["ainit"] = 2;
        p["napply"] = r.range(1, 4);
        p["asw"] = r.range(1, 2);
    }
    p["mag"] = r.chance(0.5) ? 0 : r.range(-4, 3);
    return p;
}
static void body_p05(const Params &p) {
    Sys s = make_sys(p);
    int type = (int)get(p, "type");
    bool scale = get(p, "scale"), relax = get(p, "relax");
    Held h(s, (int)get(p, "align", 64));
    Settings st;
    st.type = type;
    st.chunk = (int)get(p, "chunk", 1);
    st.scale = scale;
    st.finit = (int)get(p, "finit", 1);
    st.ainit = (int)get(p, "ainit");
    st.bsw = (int)get(p, "bsw", 1);
    st.asw = (int)get(p, "asw", 1);
    st.relax = relax;
    Rng r(get(p, "vseed", 1));
    auto di = diag_inv(s);
    Ilu f;
    bool isilu = type == T_ILU0 || type == T_SFILU0 || type == T_SAPILU0 || type == T_ALEVELILU0;
    if (isilu) {
        f = ilu0(s, scale);
        if (!f.ok) { sim::set_trivial(); return; }
    }
    Prec pc(h, st);
    pc.compute();
    // The matrix in the space in which the method works, and the strictly upper triangular product there.
    Sys w = s;
    Vec sc(s.n(), 1.0);
    if (isilu && scale) {
        sc = scaling(s);
        for (int bi = 0; bi < s.nb; bi++)
            for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++)
                for (int i = 0; i < s.bs; i++)
                    for (int j = 0; j < s.bs; j++) w.at(k, i, j) *= sc[bi * s.bs + i] * sc[s.ci[k] * s.bs + j];
    }
    auto diw = diag_inv(w);
    auto part = [&](bool upper, const Vec &x) {   // (U or L) x
        Vec y(w.n(), 0.0);
        for (int bi = 0; bi < w.nb; bi++)
            for (int k = w.rp[bi]; k < w.rp[bi + 1]; k++)
                if (upper ? w.ci[k] > bi : w.ci[k] < bi)
                    for (int i = 0; i < w.bs; i++)
                        for (int j = 0; j < w.bs; j++) y[bi * w.bs + i] += w.at(k, i, j) * x[w.ci[k] * w.bs + j];
        return y;
    };
    auto minus = [](Vec a, const Vec &b) { for (size_t i = 0; i < a.size(); i++) a[i] -= b[i]; return a; };
    bool cont = type == T_SGS && !relax && st.ainit == 2;
    Vec ylo(s.n(), 0.0), zlo(s.n(), 0.0), rv, zkeep(s.n(), 0.0);
    double mag = std::pow(10.0, (double)get(p, "mag"));
    for (int q = 0; q < (int)get(p, "napply", 1); q++) {
        if (q == 0 || !cont) {
            rv = gen_rhs(r, s, true);
            for (auto &x : rv) x *= mag;
        }
        HVec rr(rv);
        Vec lo = apply_dinv(s, di, rv), hi;
        if (cont) {
            // bounds of the chaotic iteration: every entry is computed at least once more from values at or above the last bounds
            ylo = apply_dinv(w, diw, minus(rv, part(false, ylo)));
            zlo = minus(ylo, apply_dinv(w, diw, part(true, zlo)));
            lo = zlo;
        } else if (type == T_SGS && !relax && st.ainit == 1) {
            lo = minus(lo, apply_dinv(w, diw, part(true, lo)));      // at worst Jacobi
        } else if (isilu) {
            Vec t(rv);
            for (int i = 0; i < s.n(); i++) t[i] *= sc[i];
            if (type == T_SAPILU0 || type == T_ALEVELILU0) t = model::sgs(w, t);   // solved exactly with factors at or beyond those of SGS
            else if (st.ainit == 1) t = apply_dinv(w, diw, minus(t, part(true, t)));
            else t = apply_dinv(w, diw, t);
            for (int i = 0; i < s.n(); i++) t[i] *= sc[i];
            lo = t;
        }
        if (isilu) hi = ilu_solve(f, rv);
        else if (type == T_SGS && !relax) hi = sgs(s, rv);
        else if (type == T_CSCBGS) {
            Sys u = s;  // D + U
            for (int bi = 0; bi < u.nb; bi++)
                for (int k = u.rp[bi]; k < u.di[bi]; k++) u.v[k] = 0;
            hi = solve(u, rv);
        } else hi = solve(s, rv);
        bool fromzero = relax || type == T_GS;
        HVec z(fromzero ? Vec(s.n(), 0.0) : cont ? zkeep : junk(r, s.n()));
        bool seen = (fromzero || type == T_CSCBGS) && s.n() <= 200 && !get(p, "inregion");
        if (seen) sim::watch(z.d, z.n, fromzero, s.bs);
        if (seen) sim::watch_input(rr.d, rr.n);
        if (relax) pc.relax(rr, z, (int)get(p, "asw", 1), get(p, "ctol"));
        else pc.apply(rr, z);
        int sweeps = relax && type == T_SGS ? 2 * st.asw : st.asw;
        if (seen && !works_elsewhere(s, sweeps)) check_updates(p, s, rv, z.d, type == T_CSCBGS, relax ? "relaxed vector" : "result");
        if (seen && type != T_CSCBGS) check_sweeps(p, s, sweeps, relax ? "relaxation" : "application");
        sim::watch_end();
        if (cont) zkeep = z.get();
        sim::add_output(z.d, z.n * sizeof(double));
        double t = 1e-10 * maxabs(hi) + 1e-300;
        for (int i = 0; i < s.n(); i++) {
            // with scalar blocks the lower bound is the diagonal solve; with dense blocks D^-1 r is the block solve
            if (!(z.d[i] >= lo[i] - t) || !(z.d[i] <= hi[i] + t))
                badv("sandwich", "%s%s (%d build, %d apply sweeps): entry %d is %.17g, outside [%.17g, %.17g]", desc(p).c_str(),
                    relax ? " relaxation" : "", st.bsw, st.asw, i, z.d[i], lo[i], hi[i]);
        }
        common_checks(h, rr, "preconditioner application");
    }
}

// ------------------------------------------------------------------ P06
static Params gen_p06(Rng &r, int) {
    Params p;
    // 0 seqilu0, 1 sfilu0, 2 sapilu0, 3.. one granted thread
    static const int types[] = {T_SEQILU0, T_SEQILU0, T_SFILU0, T_SAPILU0, T_ILU0, T_SGS, T_GS, T_ALEVELILU0, T_CSCBGS};
    p["type"] = types[r.below(9)];
    SysOpt o;
    o.units = true;
    o.symmetric = p["type"] == T_ALEVELILU0 ? true : r.chance(0.5);
    o.max1 = 16;
    o.max4 = 5;
    o.blocks = p["type"] != T_CSCBGS;
    gen_sys_params(p, r, o);
    gen_run_params(p, r, 2);
    int type = (int)p["type"];
    if (type == T_ILU0 || type == T_SGS || type == T_GS || type == T_ALEVELILU0 || type == T_CSCBGS) p["reduce"] = 2;
    if (r.chance(0.12)) p["nthreads"] = 1;
    p["relax"] = (type == T_GS || type == T_SGS) && r.chance(0.5);
    p["chunk"] = r.chance(0.4) ? 1 : r.range(2, 20);
    p["scale"] = r.below(2);
    p["ndiag"] = p["scale"] ? 0 : r.chance(0.3);
    p["finit"] = (int)r.below(4);
    p["ainit"] = (int)r.below(2);
    p["bsw"] = r.chance(0.6) ? 1 : r.range(2, 3);
    p["asw"] = r.chance(0.6) ? 1 : r.range(2, 4);
    p["recompute"] = r.chance(0.3);
    if (p["relax"]) {
        if (r.chance(0.06)) p["asw"] = 0;
        p["ctol"] = r.chance(0.3);
    }
    return p;
}
static void body_p06(const Params &p) {
    Sys s = make_sys(p);
    int type = (int)get(p, "type");
    bool scale = get(p, "scale"), relax = get(p, "relax");
    Ilu f;
    bool isilu = type != T_SGS && type != T_GS && type != T_CSCBGS;
    if (isilu) {
        f = ilu0(s, scale);
        if (!f.ok) { sim::set_trivial(); return; }
    }
    Held h(s, (int)get(p, "align", 64));
    Settings st;
    st.type = type;
    st.chunk = (int)get(p, "chunk", 1);
    st.scale = scale;
    st.finit = (int)get(p, "finit", 1);
    st.ainit = (int)get(p, "ainit");
    st.relax = relax;
    int bsw = (int)get(p, "bsw", 1), asw = (int)get(p, "asw", 1);
    st.bsw = type == T_SAPILU0 ? sweeps_for(ilu_depth(s), p) : bsw;
    st.asw = type == T_SFILU0 ? sweeps_for(tri_depth(s), p) : asw;
    Rng r(get(p, "vseed", 1));
    Prec pc(h, st);
    pc.compute();
    if (get(p, "recompute")) pc.compute();
    Vec first;
    Vec rv = gen_rhs(r, s);
    HVec rr(rv);
    for (int q = 0; q < 2; q++) {
        Vec x0 = gen_vec(r, s.n()), ref;
        if (isilu) ref = ilu_solve(f, rv);
        else if (type == T_CSCBGS) {
            Sys u = s;
            for (int bi = 0; bi < u.nb; bi++)
                for (int k = u.rp[bi]; k < u.di[bi]; k++) u.v[k] = 0;
            ref = solve(u, rv);
        } else if (type == T_SGS && !relax) ref = sgs(s, rv);
        else {
            auto di = diag_inv(s);
            ref = x0;
            for (int k = 0; k < asw; k++) {
                gs_sweep(s, di, rv, ref, true);
                if (type == T_SGS) gs_sweep(s, di, rv, ref, false);
            }
        }
        bool guess = type == T_GS || relax;
        HVec z(guess ? x0 : junk(r, s.n()));
        if (relax) pc.relax(rr, z, asw, get(p, "ctol"));
        else pc.apply(rr, z);
        expect("not-sequential", p, relax ? "relaxation differs from the sequential sweeps" : "application differs from the sequential algorithm",
               z, ref, tol_for(s));
        common_checks(h, rr, "application");
        if (isilu || (type == T_SGS && !relax) || type == T_CSCBGS) {
            Vec got = z.get();
            if (q == 0) first = got;
            else if ((type == T_SEQILU0 || get(p, "reduce") == 2) && memcmp(first.data(), got.data(), got.size() * sizeof(double)))
                badv("not-deterministic", "%s: the same application gave two different results", desc(p).c_str());
        }
    }
}

// ------------------------------------------------------------------ P10
// One object with its exact reference.
struct Obj {
    int type = 0;
    int mi = 0;
    Settings st;
    bool scale = false;
    Prec pc;
    bool computed = false;
    Ilu f;
};
static int p10_types(Rng &r) {
    static const int t[] = {T_JACOBI, T_GS, T_SGS, T_ILU0, T_SEQILU0, T_SFILU0, T_SAPILU0, T_LEVELSGS, T_ALEVELILU0, T_CSCBGS, T_NOPREC};
    return t[r.below(11)];
}
static Params gen_p10(Rng &r, int) {
    Params p;
    SysOpt o;
    o.units = true;
    o.symmetric = true;
    o.max1 = 8;
    o.max4 = 3;
    o.min_nb = 2;
    gen_sys_params(p, r, o);
    gen_run_params(p, r, 1);
    if (p["nthreads"] > 4) p["nthreads"] = 4;
    p["lag"] = r.range(0, 1);
    p["hseed"] = (int64_t)(r.next() >> 34);
    p["nops"] = r.range(4, 14);
    p["nobj"] = r.range(1, 4);
    p["apps"] = r.chance(0.35) ? r.range(2, 3) : 1;
    if (p["apps"] > 1 && r.chance(0.4)) p["inregion"] = r.range(1, 2);
    if (get(p, "big") == 3) {
        p["nops"] = r.range(3, 5);
        p["nobj"] = r.range(1, 2);
        p["apps"] = 1;
        p.erase("inregion");
    }
    return p;
}
// exact reference of one application
Expect expect_apply(int type, bool relax, const Sys &s, const Ilu &f, const Vec &rv, const Vec &x0, int steps) {
    Expect e;
    auto di = diag_inv(s);
    auto bound = [&]() {  // contraction bound
        e.exact = false;
        e.ref = solve(s, rv);
        double e0 = 0;
        for (int i = 0; i < s.n(); i++) e0 = std::max(e0, std::fabs(x0[i] - e.ref[i]));
        e.lim = std::max(rho(s), 1e-300) * e0 + 1e-10 * (e0 + maxabs(e.ref));
    };
    if (relax) {
        if (!steps) e.ref = x0;
        else if (type == T_LEVELSGS || type == T_JACOBI) {
            e.ref = x0;
            for (int k = 0; k < steps; k++) {
                if (type == T_JACOBI) {
                    Vec old = e.ref, t = matvec(s, old);
                    for (int i = 0; i < s.n(); i++) t[i] = rv[i] - t[i];
                    t = apply_dinv(s, di, t);
                    for (int i = 0; i < s.n(); i++) e.ref[i] = old[i] + t[i];
                } else {
                    gs_sweep(s, di, rv, e.ref, true);
                    gs_sweep(s, di, rv, e.ref, false);
                }
            }
        } else bound();
        return e;
    }
    switch (type) {
    case T_JACOBI: e.ref = apply_dinv(s, di, rv); break;
    case T_NOPREC: e.ref = rv; break;
    case T_SGS: case T_LEVELSGS: e.ref = sgs(s, rv); break;
    case T_GS: bound(); break;
    case T_CSCBGS: {
        Sys u = s;
        for (int bi = 0; bi < u.nb; bi++)
            for (int k = u.rp[bi]; k < u.di[bi]; k++) u.v[k] = 0;
        e.ref = solve(u, rv);
        break;
    }
    default: e.ref = ilu_solve(f, rv);
    }
    return e;
}
void judge_apply(const char *cls, const char *who, int type, bool relax, const Sys &s, const Params &p, const Expect &e, const double *z) {
    int w = 0;
    double tol = tol_for(s);
    if (type == T_CSCBGS) {
        // one thread at a time is exact; with several it may lag, then only boundedness of every entry is known (P05)
        if (get(p, "nthreads") == 1 || get(p, "reduce") == 2) {
            if (!close(z, e.ref, tol, &w)) badv(cls, "%s: %s: %s", who, type_names[type], where_str(z, e.ref, w).c_str());
        }
        for (int i = 0; i < s.n(); i++)
            if (!std::isfinite(z[i])) badv(cls, "%s: %s: entry %d is not finite", who, type_names[type], i);
    } else if (e.exact) {
        if (!close(z, e.ref, tol, &w))
            badv(cls, "%s: %s %s differs from a fresh object on the same values: %s", who, type_names[type],
                relax ? "relaxation" : "application", where_str(z, e.ref, w).c_str());
    } else if (rho(s) < 1.0) {
        double d = maxdiff(z, e.ref);
        if (!(d <= e.lim)) badv(cls, "%s: %s: error %.6g after relaxation exceeds the contraction bound %.6g", who, type_names[type], d, e.lim);
    }
}
static void p10_apply(Obj &o, const Held &h, const Sys &s, const Params &p, Rng &r, const char *who) {
    Vec rv = gen_rhs(r, s);
    HVec rr(rv);
    bool canrelax = o.type == T_JACOBI || o.type == T_GS || o.type == T_SGS || o.type == T_LEVELSGS;
    bool relax = canrelax && o.st.relax;
    Vec x0 = gen_vec(r, s.n());
    int steps = 1 + (int)r.below(2);
    bool ctol = relax && r.chance(0.3);       // tolerances that never stop the iteration
    if (relax && o.type != T_GS && r.chance(0.05)) steps = 0;
    Expect e = expect_apply(o.type, relax, s, o.f, rv, x0, steps);
    bool guess = relax || o.type == T_GS;
    HVec z(guess ? x0 : junk(r, s.n()));
    if (relax) o.pc.relax(rr, z, steps, ctol);
    else o.pc.apply(rr, z);
    sim::add_output(z.d, z.n * sizeof(double));
    judge_apply("history", who, o.type, relax, s, p, e, z.d);
    h.check_unmodified(who);
    rr.check_unmodified(who);
}
static void p10_make(Obj &o, const Held &h, const Sys &s, const Params &p, Rng &r) {
    do o.type = p10_types(r); while (o.type == T_CSCBGS && s.bs != 1);
    o.st = Settings();
    o.st.type = o.type;
    o.st.chunk = 1 + (int)r.below(3);
    o.st.scale = r.chance(0.5);
    o.st.relax = r.chance(0.5);
    o.st.finit = (int)r.below(4);
    o.st.ainit = (int)r.below(o.type == T_SGS ? 3 : 2);
    o.st.info = r.chance(0.2);
    {
        Sut in;
        blasted::SRFactory<double, int> f;
        static const BlastedSolverType tt[] = {
            BLASTED_JACOBI, BLASTED_GS, BLASTED_SGS, BLASTED_ILU0, BLASTED_SEQILU0, BLASTED_SFILU0, BLASTED_SAPILU0,
            BLASTED_CSC_BGS, BLASTED_LEVEL_SGS, BLASTED_ASYNC_LEVEL_ILU0, BLASTED_NO_PREC};
        if (f.solverTypeFromString(type_names[o.type]) != tt[o.type]) badv("wrong-type", "the name %s stands for another preconditioner", type_names[o.type]);
    }
    bool tf = o.type == T_ILU0 || o.type == T_SAPILU0 || o.type == T_ALEVELILU0;
    bool ta = o.type == T_ILU0 || o.type == T_SFILU0 || o.type == T_SGS;
    o.st.bsw = tf ? sweeps_for(ilu_depth(s), p) : 1 + (int)r.below(2);
    o.st.asw = ta ? sweeps_for(tri_depth(s), p) : 1 + (int)r.below(2);
    o.pc.create(h, o.st);
    o.computed = false;
    int dim;
    bool rel;
    { Sut in; dim = o.pc.p->dim(); rel = o.pc.p->relaxationAvailable(); }
    if (dim != s.n()) badv("history", "%s reports the dimension %d, the matrix has %d rows", type_names[o.type], dim, s.n());
    bool canrelax = o.type == T_JACOBI || o.type == T_GS || o.type == T_SGS || o.type == T_LEVELSGS;
    if (rel != canrelax && o.type != T_NOPREC) badv("unsupported-accepted", "%s %s to be usable as a relaxation", type_names[o.type], rel ? "claims" : "does not claim");
}
static bool p10_compute(Obj &o, const Sys &s) {
    o.pc.compute();
    o.computed = true;
    o.f = ilu0(s, o.st.scale);
    return o.f.ok;
}
// A request for something that is not available: refused with an exception, and nothing else happens.
template <class F> static void refused(const char *who, const std::string &what, F f) {
    bool threw = false;
    try { Sut in; f(); }
    catch (const std::exception &) { threw = true; }
    if (!threw) badv("unsupported-accepted", "%s: %s was not refused", who, what.c_str());
}
static void p10_refused(const Held &h, const Sys &s, Obj &o, Rng &r, const char *who) {
    blasted::SRFactory<double, int> f;
    blasted::AsyncSolverSettings st;
    st.prectype = (BlastedSolverType)r.below(11);
    st.bs = s.bs;
    st.blockstorage = s.rm ? blasted::RowMajor : blasted::ColMajor;
    st.relax = r.chance(0.5);
    st.thread_chunk_size = 1;
    st.scale = r.chance(0.5);
    st.nbuildsweeps = st.napplysweeps = 1;
    st.fact_inittype = blasted::INIT_F_ORIGINAL;
    st.apply_inittype = blasted::INIT_A_JACOBI;
    st.compute_precinfo = false;
    std::string what;
    static const int nobs[] = {2, 3, 6, 7, 8, 0, -4, 16};
    static const char *names[] = {"", "jacob", "ilu", "ILU0", "sgs ", "level", "async_level_sgs", "sai", "ext", "noprec", "gs0"};
    static const char *inits[] = {"", "zero", "init", "init_", "INIT_ZERO", "init_zero ", "jacobi", "original", "init_ilu"};
    switch (r.below(8)) {
    case 6: st.bs = r.chance(0.5) ? 4 : 5; st.blockstorage = (blasted::StorageOptions)2; what = "an unknown block storage order"; break;
    case 0: st.prectype = r.chance(0.5) ? BLASTED_EXTERNAL : (BlastedSolverType)(12 + r.below(4)); what = "an unknown preconditioner type"; break;
    case 1: st.bs = nobs[r.below(8)]; what = "block size " + std::to_string(st.bs); break;
    case 2: st.bs = 5; st.blockstorage = blasted::RowMajor; what = "block size 5 stored by rows"; break;
    case 3: st.prectype = BLASTED_CSC_BGS; st.bs = 4; what = "cscbgs with blocks"; break;
    case 4: {
        std::string nm = names[r.below(11)];
        refused(who, "preconditioner name '" + nm + "'", [&] { f.solverTypeFromString(nm); });
        return;
    }
    case 5: {
        std::string nm = inits[r.below(9)];
        bool fact = r.chance(0.5);
        if (fact) refused(who, "factor initialisation '" + nm + "'", [&] { blasted::getFactInitFromString(nm); });
        else refused(who, "apply initialisation '" + (nm == "init_ilu" ? std::string("init_sgs") : nm) + "'", [&] { blasted::getApplyInitFromString(nm == "init_ilu" ? "init_sgs" : nm); });
        return;
    }
    default: {
        bool canrelax = o.type == T_JACOBI || o.type == T_GS || o.type == T_SGS || o.type == T_LEVELSGS || o.type == T_NOPREC;
        if (canrelax || !o.computed) return;
        HVec b(gen_rhs(r, s)), x(gen_vec(r, s.n()));
        if (o.pc.p->relaxationAvailable()) badv("unsupported-accepted", "%s: %s claims to be usable as a relaxation", who, type_names[o.type]);
        refused(who, std::string("relaxation with ") + type_names[o.type], [&] { o.pc.p->apply_relax(b.d, x.d); });
        b.check_unmodified(who);
        x.check_unmodified(who);
        return;
    }
    }
    blasted::SRPreconditioner<double, int> *p = nullptr;
    refused(who, what, [&] { p = f.create_preconditioner(h.wrap(), st); });
    h.check_unmodified(who);
}
static void p10_history(std::vector<std::unique_ptr<Held>> &hs, std::vector<Sys> &sys, const Params &p, uint64_t hseed, bool may_mutate, const char *who) {
    Rng r(hseed);
    int nobj = (int)get(p, "nobj", 1), nops = (int)get(p, "nops", 5);
    std::vector<std::unique_ptr<Obj>> ob(nobj);
    for (int k = 0; k < nops; k++) {
        Rng ro(sim::mix(hseed, 1000 + k));  // every operation draws from its own stream: shrinking the history keeps the rest
        int i = (int)ro.below(nobj);
        if (!ob[i]) {
            ob[i].reset(new Obj);
            ob[i]->mi = (int)ro.below(sys.size());
            p10_make(*ob[i], *hs[ob[i]->mi], sys[ob[i]->mi], p, ro);
            if (!p10_compute(*ob[i], sys[ob[i]->mi])) { sim::set_trivial(); return; }
        }
        Obj &o = *ob[i];
        if (ro.chance(0.1)) p10_refused(*hs[o.mi], sys[o.mi], o, ro, who);
        switch (ro.below(8)) {
        case 0:
            ob[i].reset();
            break;
        case 1: case 2:
            if (may_mutate) {
                int m = o.mi;
                model::GenOpt go;
                go.seed = sim::mix(hseed, 77 + k);
                go.kind = K_GENERAL;
                go.dom = (int)get(p, "dom", 80);
                go.gexp = (int)get(p, "gexp");
                go.rexp = (int)get(p, "rexp");
                gen_values(sys[m], go);
                hs[m]->set_values(sys[m].v);
                for (auto &q : ob)
                    if (q && q->mi == m) q->computed = false;
            }
            // fall through
        case 3:
            if (!p10_compute(o, sys[o.mi])) { sim::set_trivial(); return; }
            hs[o.mi]->check_unmodified("compute");
            break;
        default:
            if (!o.computed && !p10_compute(o, sys[o.mi])) { sim::set_trivial(); return; }
            p10_apply(o, *hs[o.mi], sys[o.mi], p, ro, who);
        }
    }
    // a last application of everything alive
    for (auto &q : ob)
        if (q) {
            Rng ro(sim::mix(hseed, 99));
            if (!q->computed && !p10_compute(*q, sys[q->mi])) { sim::set_trivial(); return; }
            p10_apply(*q, *hs[q->mi], sys[q->mi], p, ro, who);
        }
}
static void body_p10(const Params &p) {
    std::vector<Sys> sys;
    std::vector<std::unique_ptr<Held>> hs;
    sys.reserve(2);
    sys.push_back(make_sys(p));
    Params q = p;
    q["mseed"] = get(p, "mseed") + 17;
    q["nb"] = std::max<int64_t>(1, get(p, "nb") - 1);
    sys.push_back(make_sys(q));
    for (auto &s : sys) hs.emplace_back(new Held(s, (int)get(p, "align", 64)));
    int apps = (int)get(p, "apps", 1);
    uint64_t hseed = (uint64_t)get(p, "hseed", 1);
    if (apps == 1) {
        p10_history(hs, sys, p, hseed, true, "history");
        if (sim::live_sut_allocs()) badv("leak", "memory of destroyed preconditioners is never released: %s", sim::describe_live().c_str());
        return;
    }
    if (get(p, "inregion")) {
        // the application is itself parallel: every member of its team works with objects of its own
#pragma omp parallel num_threads(apps) default(shared)
        p10_history(hs, sys, p, sim::mix(hseed, omp_get_thread_num()), false, "history in a parallel region of the application");
        return;
    }
    for (int a = 1; a < apps; a++)
        sim::spawn([&, a] { p10_history(hs, sys, p, sim::mix(hseed, a), false, "concurrent history"); });
    p10_history(hs, sys, p, hseed, false, "concurrent history");
    sim::join_all();
}

// ------------------------------------------------------------------ P11
static Params gen_p11(Rng &r, int) {
    Params p;
    static const int types[] = {T_SEQILU0, T_SAPILU0, T_SAPILU0, T_ILU0, T_SFILU0, T_ALEVELILU0};
    p["type"] = types[r.below(6)];
    SysOpt o;
    o.symmetric = p["type"] == T_ALEVELILU0 ? true : r.chance(0.5);
    o.max1 = 10;
    o.max4 = 4;
    o.big1 = 26; o.big4 = 8; o.pbig = 0.004; o.huge1 = 50; o.huge4 = 12;
    o.pgiant = 0;
    gen_sys_params(p, r, o);
    gen_run_params(p, r, 2);
    p["chunk"] = gen_chunk(p, r);
    p["scale"] = r.below(2);
    p["ndiag"] = p["scale"] ? 0 : r.chance(0.3);
    p["finit"] = r.range(1, 3);
    if (r.chance(0.15)) p["finit"] = 0;
    p["ainit"] = (int)r.below(2);
    p["bsw"] = r.range(1, 3);
    p["recompute"] = r.chance(0.3);
    return p;
}
static double res_norm(const Sys &s, const Dense &A, const Dense &L, const Dense &U) {
    int bs = s.bs;
    auto pat = pattern(s);
    double sum = 0;
    for (int bi = 0; bi < s.nb; bi++)
        for (int bj = 0; bj < s.nb; bj++) {
            if (!pat[(size_t)bi * s.nb + bj]) continue;
            for (int i = bi * bs; i < (bi + 1) * bs; i++)
                for (int j = bj * bs; j < (bj + 1) * bs; j++) {
                    double t = A(i, j);
                    for (int k = 0; k < (std::min(bi, bj) + 1) * bs; k++) t -= L(i, k) * U(k, j);
                    sum += std::fabs(t);
                }
        }
    return sum;
}
static bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
static void body_p11(const Params &p) {
    Sys s = make_sys(p);
    int n = s.n(), bs = s.bs, nb = s.nb;
    int type = (int)get(p, "type");
    bool scale = get(p, "scale");
    Ilu ex = ilu0(s, scale);
    if (!ex.ok) { sim::set_trivial(); return; }
    Held h(s, (int)get(p, "align", 64));
    Settings st;
    st.type = type;
    st.chunk = (int)get(p, "chunk", 1);
    st.scale = scale;
    st.finit = (int)get(p, "finit", 1);
    st.ainit = (int)get(p, "ainit");
    st.info = true;
    st.bsw = (int)get(p, "bsw", 1);
    bool seqapply = type == T_SEQILU0 || type == T_SAPILU0 || type == T_ALEVELILU0;
    st.asw = seqapply ? 1 : sweeps_for(tri_depth(s), p);
    Dense A = dense(s);
    if (scale) {
        Vec sc = scaling(s);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) A(i, j) *= sc[i] * sc[j];
    }
    Prec pc(h, st);
    blasted::PrecInfo info = pc.compute();
    bool again = get(p, "recompute");
    if (again) info = pc.compute();
    h.check_unmodified("compute with diagnostics");
    // the factors actually held, recovered from exact applications to the unit vectors
    Dense Minv(n), M(n);
    for (int j = 0; j < n; j++) {
        Vec e(n, 0.0);
        e[j] = 1;
        HVec rr(e), z(Vec(n, 0.0));
        pc.apply(rr, z);
        for (int i = 0; i < n; i++) {
            if (!std::isfinite(z.d[i]) || std::fabs(z.d[i]) > 1e6) { sim::set_trivial(); return; }
            Minv(i, j) = z.d[i];
        }
    }
    if (!invert(Minv.a.data(), n, M.a.data())) { sim::set_trivial(); return; }
    double cond = maxabs(M.a) * maxabs(Minv.a);
    if (!(cond < 1e5)) { sim::set_trivial(); return; }
    if (scale)
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) M(i, j) *= ex.scale[i] * ex.scale[j];
    // block LU of M without dropping: L and U are unique
    Sys full;
    full.nb = nb; full.bs = bs; full.rm = true;
    full.rp.push_back(0);
    for (int i = 0; i < nb; i++) {
        for (int j = 0; j < nb; j++) { if (i == j) full.di.push_back((int)full.ci.size()); full.ci.push_back(j); }
        full.rp.push_back((int)full.ci.size());
    }
    full.v.assign((size_t)nb * nb * bs * bs, 0.0);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) full.at((i / bs) * nb + j / bs, i % bs, j % bs) = M(i, j);
    Ilu f = ilu0(full, false);
    if (!f.ok) { sim::set_trivial(); return; }
    auto pat = pattern(s);
    double tol = 1e-7;
    for (int i = 0; i < n; i++)  // the held factors live in the pattern of the matrix
        for (int j = 0; j < n; j++)
            if (!pat[(size_t)(i / bs) * nb + j / bs] && (std::fabs(f.L(i, j)) > 1e-6 || std::fabs(f.U(i, j)) > 1e-6))
                badv("diagnostics", "%s: the applied preconditioner is not a product of factors with the matrix pattern", desc(p).c_str());
    double rem = res_norm(s, A, f.L, f.U);
    sim::add_output(&info.f_info, sizeof info.f_info);
    if (!near(info.prec_remainder_norm(), rem, tol))
        badv("diagnostics", "%s: reported remainder norm %.12g, factors held give %.12g", desc(p).c_str(), info.prec_remainder_norm(), rem);
    double ua = 0, um = 1e30, la = 0, lm = 1e30;
    for (int i = 0; i < n; i++) {
        double l = 1, u = 0;
        for (int j = 0; j < n; j++) {
            if (!pat[(size_t)(i / bs) * nb + j / bs]) continue;
            if (j / bs < i / bs) l -= std::fabs(f.L(i, j));
            else if (j != i) u += std::fabs(f.U(i, j));
        }
        u = 1 - u / std::fabs(f.U(i, i));
        ua += u; la += l;
        um = std::min(um, u); lm = std::min(lm, l);
    }
    ua /= n; la /= n;
    struct { const char *n; double got, want; } q[] = {
        {"average diagonal dominance of the upper factor", info.upper_avg_diag_dom(), ua},
        {"minimum diagonal dominance of the upper factor", info.upper_min_diag_dom(), um},
        {"average diagonal dominance of the lower factor", info.lower_avg_diag_dom(), la},
        {"minimum diagonal dominance of the lower factor", info.lower_min_diag_dom(), lm}};
    for (auto &x : q)
        if (!near(x.got, x.want, tol))
            badv("diagnostics", "%s: reported %s is %.12g, factors held give %.12g", desc(p).c_str(), x.n, x.got, x.want);
    // remainder of the initial guess
    if (st.finit == blasted::INIT_F_ORIGINAL || st.finit == blasted::INIT_F_SGS) {
        Dense L(n), U(n);
        auto inv = diag_inv(s);
        for (int i = 0; i < n; i++) {
            L(i, i) = 1;
            for (int j = 0; j < n; j++) {
                if (!pat[(size_t)(i / bs) * nb + j / bs]) continue;
                if (j / bs < i / bs) L(i, j) = A(i, j);
                else U(i, j) = A(i, j);
            }
        }
        if (st.finit == blasted::INIT_F_SGS) {
            Dense L2 = L;
            for (int i = 0; i < n; i++)
                for (int bj = 0; bj < i / bs; bj++) {
                    Dense d(bs), di(bs);
                    for (int a = 0; a < bs; a++)
                        for (int b = 0; b < bs; b++) d(a, b) = A(bj * bs + a, bj * bs + b);
                    invert(d.a.data(), bs, di.a.data());
                    for (int b = 0; b < bs; b++) {
                        double t = 0;
                        for (int a = 0; a < bs; a++) t += L(i, bj * bs + a) * di(a, b);
                        L2(i, bj * bs + b) = t;
                    }
                }
            L = L2;
        }
        double r0 = res_norm(s, A, L, U);
        if (!near(info.prec_rem_initial_norm(), r0, tol))
            badv("diagnostics", "%s: reported initial remainder norm %.12g, the initial guess has %.12g", desc(p).c_str(),
                info.prec_rem_initial_norm(), r0);
    }
    else if (st.finit == blasted::INIT_F_ZERO) {
        // zero factors leave the whole matrix; the scalar factorisation starts from the original matrix instead, which it may
        Dense Z(n), L(n), U(n);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) {
                if (i == j) L(i, j) = 1;
                if (!pat[(size_t)(i / bs) * nb + j / bs]) continue;
                if (j / bs < i / bs) L(i, j) = A(i, j);
                else U(i, j) = A(i, j);
            }
        double rz = res_norm(s, A, Z, Z), ro = res_norm(s, A, L, U), got = info.prec_rem_initial_norm();
        if (!near(got, rz, tol) && !(bs == 1 && near(got, ro, tol)))
            badv("diagnostics", "%s: reported initial remainder norm %.12g, the initial guess has %.12g", desc(p).c_str(), got, rz);
    }
    // requesting diagnostics does not change the preconditioner (judged where it is determined: sequential factorisation)
    if (type == T_SEQILU0 || type == T_SFILU0) {
        st.info = false;
        Prec p2(h, st);
        p2.compute();
        if (again) p2.compute();
        Rng r(get(p, "vseed", 1));
        HVec rr(gen_vec(r, n)), z1(Vec(n, 0.0)), z2(Vec(n, 0.0));
        pc.apply(rr, z1);
        p2.apply(rr, z2);
        int w = 0;
        if (!close(z1.d, z2.get(), 1e-10, &w))
            badv("diagnostics", "%s: requesting diagnostics changed the preconditioner: %s", desc(p).c_str(), where_str(z1.d, z2.get(), w).c_str());
    }
}

extern const Workload w_p01{"P01", gen_p01, body_p01, nullptr, false};
extern const Workload w_p02{"P02", gen_p02, body_p02, nullptr, false};
extern const Workload w_p03{"P03", gen_p03, body_p03, nullptr, false};
extern const Workload w_p04{"P04", gen_p04, body_p04, nullptr, false};
extern const Workload w_p05{"P05", gen_p05, body_p05, nullptr, false};
extern const Workload w_p06{"P06", gen_p06, body_p06, nullptr, false};
extern const Workload w_p10{"P10", gen_p10, body_p10, nullptr, false};
extern const Workload w_p11{"P11", gen_p11, body_p11, nullptr, false};
