#include "model.h"

namespace model {

Dense dense(const Sys &s) {
    Dense d(s.n());
    for (int bi = 0; bi < s.nb; bi++)
        for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++)
            for (int i = 0; i < s.bs; i++)
                for (int j = 0; j < s.bs; j++) d(bi * s.bs + i, s.ci[k] * s.bs + j) += s.at(k, i, j);
    return d;
}
std::vector<char> pattern(const Sys &s) {
    std::vector<char> p((size_t)s.nb * s.nb, 0);
    for (int bi = 0; bi < s.nb; bi++)
        for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++) p[(size_t)bi * s.nb + s.ci[k]] = 1;
    return p;
}
Vec scaling(const Sys &s) {
    Vec sc(s.n());
    for (int bi = 0; bi < s.nb; bi++)
        for (int i = 0; i < s.bs; i++) sc[bi * s.bs + i] = 1.0 / std::sqrt(s.at(s.di[bi], i, i));
    return sc;
}
bool invert(const double *a, int m, double *out) {
    std::vector<double> w(a, a + m * m);
    for (int i = 0; i < m; i++)
        for (int j = 0; j < m; j++) out[i * m + j] = i == j;
    for (int c = 0; c < m; c++) {
        int p = c;
        for (int i = c + 1; i < m; i++)
            if (std::fabs(w[i * m + c]) > std::fabs(w[p * m + c])) p = i;
        if (!(std::fabs(w[p * m + c]) > 1e-300)) return false;
        if (p != c)
            for (int j = 0; j < m; j++) { std::swap(w[p * m + j], w[c * m + j]); std::swap(out[p * m + j], out[c * m + j]); }
        double d = 1.0 / w[c * m + c];
        for (int j = 0; j < m; j++) { w[c * m + j] *= d; out[c * m + j] *= d; }
        for (int i = 0; i < m; i++)
            if (i != c && w[i * m + c] != 0) {
                double f = w[i * m + c];
                for (int j = 0; j < m; j++) { w[i * m + j] -= f * w[c * m + j]; out[i * m + j] -= f * out[c * m + j]; }
            }
    }
    return true;
}
Vec matvec(const Sys &s, const Vec &x) {
    Vec y(s.n(), 0.0);
    for (int bi = 0; bi < s.nb; bi++)
        for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++)
            for (int i = 0; i < s.bs; i++)
                for (int j = 0; j < s.bs; j++) y[bi * s.bs + i] += s.at(k, i, j) * x[s.ci[k] * s.bs + j];
    return y;
}
static Dense blk(const Dense &d, int bs, int bi, int bj) {
    Dense r(bs);
    for (int i = 0; i < bs; i++)
        for (int j = 0; j < bs; j++) r(i, j) = d(bi * bs + i, bj * bs + j);
    return r;
}
static void setblk(Dense &d, int bs, int bi, int bj, const Dense &b) {
    for (int i = 0; i < bs; i++)
        for (int j = 0; j < bs; j++) d(bi * bs + i, bj * bs + j) = b(i, j);
}
static void submul(Dense &r, const Dense &a, const Dense &b) {
    for (int i = 0; i < r.n; i++)
        for (int j = 0; j < r.n; j++) {
            double t = 0;
            for (int k = 0; k < r.n; k++) t += a(i, k) * b(k, j);
            r(i, j) -= t;
        }
}
Ilu ilu0(const Sys &s, bool scaled) {
    Ilu f;
    f.nb = s.nb; f.bs = s.bs;
    f.pat = pattern(s);
    Dense A = dense(s);
    int n = s.n(), bs = s.bs, nb = s.nb;
    if (scaled) {
        f.scale = scaling(s);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) A(i, j) *= f.scale[i] * f.scale[j];
    }
    f.L = Dense(n);
    f.U = Dense(n);
    for (int i = 0; i < n; i++) f.L(i, i) = 1;
    auto has = [&](int i, int j) { return f.pat[(size_t)i * nb + j] != 0; };
    for (int i = 0; i < nb; i++)
        for (int j = 0; j < nb; j++) {
            if (!has(i, j)) continue;
            Dense t = blk(A, bs, i, j);
            int m = std::min(i, j);
            for (int k = 0; k < m; k++)
                if (has(i, k) && has(k, j)) submul(t, blk(f.L, bs, i, k), blk(f.U, bs, k, j));
            if (j < i) {
                Dense u = blk(f.U, bs, j, j), ui(bs), l(bs);
                if (!invert(u.a.data(), bs, ui.a.data())) f.ok = false;
                for (int p = 0; p < bs; p++)
                    for (int q = 0; q < bs; q++) {
                        double x = 0;
                        for (int r = 0; r < bs; r++) x += t(p, r) * ui(r, q);
                        l(p, q) = x;
                    }
                setblk(f.L, bs, i, j, l);
            } else
                setblk(f.U, bs, i, j, t);
        }
    auto e = [&](int i) { return s.rexp.empty() ? 0 : s.rexp[i / bs]; };
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {   // in units of the rows
            double u = std::ldexp(f.U(i, j), scaled ? 0 : -e(i)), l = std::ldexp(f.L(i, j), scaled ? 0 : e(j) - e(i));
            if (!std::isfinite(u) || std::fabs(u) > 1e8 || !std::isfinite(l) || std::fabs(l) > 1e8) f.ok = false;
        }
    return f;
}
Vec lower_solve(const Ilu &f, const Vec &r) {
    int n = f.nb * f.bs;
    Vec y(n);
    for (int i = 0; i < n; i++) {
        double t = r[i];
        for (int j = 0; j < i / f.bs * f.bs; j++) t -= f.L(i, j) * y[j];
        y[i] = t;
    }
    return y;
}
Vec ilu_solve(const Ilu &f, const Vec &r0) {
    int n = f.nb * f.bs, bs = f.bs;
    Vec r = r0;
    if (!f.scale.empty())
        for (int i = 0; i < n; i++) r[i] *= f.scale[i];
    Vec y = lower_solve(f, r), z(n);
    for (int bi = f.nb - 1; bi >= 0; bi--) {
        Vec t(bs);
        for (int i = 0; i < bs; i++) {
            double x = y[bi * bs + i];
            for (int j = (bi + 1) * bs; j < n; j++) x -= f.U(bi * bs + i, j) * z[j];
            t[i] = x;
        }
        Dense u = blk(f.U, bs, bi, bi), ui(bs);
        invert(u.a.data(), bs, ui.a.data());
        for (int i = 0; i < bs; i++) {
            double x = 0;
            for (int j = 0; j < bs; j++) x += ui(i, j) * t[j];
            z[bi * bs + i] = x;
        }
    }
    if (!f.scale.empty())
        for (int i = 0; i < n; i++) z[i] *= f.scale[i];
    return z;
}
std::vector<Dense> diag_inv(const Sys &s) {
    std::vector<Dense> r;
    for (int bi = 0; bi < s.nb; bi++) {
        Dense d(s.bs), o(s.bs);
        for (int i = 0; i < s.bs; i++)
            for (int j = 0; j < s.bs; j++) d(i, j) = s.at(s.di[bi], i, j);
        invert(d.a.data(), s.bs, o.a.data());
        r.push_back(o);
    }
    return r;
}
static void row_apply(const Sys &s, const std::vector<Dense> &di, int bi, const Vec &t, double *out) {
    for (int i = 0; i < s.bs; i++) {
        double x = 0;
        for (int j = 0; j < s.bs; j++) x += di[bi](i, j) * t[j];
        out[i] = x;
    }
}
Vec apply_dinv(const Sys &s, const std::vector<Dense> &di, const Vec &r) {
    Vec z(s.n());
    for (int bi = 0; bi < s.nb; bi++) {
        Vec t(r.begin() + bi * s.bs, r.begin() + (bi + 1) * s.bs);
        row_apply(s, di, bi, t, &z[bi * s.bs]);
    }
    return z;
}
Vec sgs(const Sys &s, const Vec &r) {
    auto di = diag_inv(s);
    int bs = s.bs;
    Vec y(s.n(), 0.0), z(s.n(), 0.0);
    for (int bi = 0; bi < s.nb; bi++) {
        Vec t(r.begin() + bi * bs, r.begin() + (bi + 1) * bs);
        for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++)
            if (s.ci[k] < bi)
                for (int i = 0; i < bs; i++)
                    for (int j = 0; j < bs; j++) t[i] -= s.at(k, i, j) * y[s.ci[k] * bs + j];
        row_apply(s, di, bi, t, &y[bi * bs]);
    }
    for (int bi = s.nb - 1; bi >= 0; bi--) {
        Vec t(bs, 0.0), o(bs);
        for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++)
            if (s.ci[k] > bi)
                for (int i = 0; i < bs; i++)
                    for (int j = 0; j < bs; j++) t[i] += s.at(k, i, j) * z[s.ci[k] * bs + j];
        row_apply(s, di, bi, t, o.data());
        for (int i = 0; i < bs; i++) z[bi * bs + i] = y[bi * bs + i] - o[i];
    }
    return z;
}
void gs_sweep(const Sys &s, const std::vector<Dense> &di, const Vec &b, Vec &x, bool forward) {
    int bs = s.bs;
    for (int q = 0; q < s.nb; q++) {
        int bi = forward ? q : s.nb - 1 - q;
        Vec t(b.begin() + bi * bs, b.begin() + (bi + 1) * bs);
        for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++)
            if (s.ci[k] != bi)
                for (int i = 0; i < bs; i++)
                    for (int j = 0; j < bs; j++) t[i] -= s.at(k, i, j) * x[s.ci[k] * bs + j];
        row_apply(s, di, bi, t, &x[bi * bs]);
    }
}
Vec solve(const Sys &s, const Vec &b) {
    Dense A = dense(s), I(s.n());
    invert(A.a.data(), A.n, I.a.data());
    Vec x(A.n, 0.0);
    for (int i = 0; i < A.n; i++)
        for (int j = 0; j < A.n; j++) x[i] += I(i, j) * b[j];
    return x;
}
double rho(const Sys &s) {
    auto di = diag_inv(s);
    int bs = s.bs;
    double m = 0;
    for (int bi = 0; bi < s.nb; bi++)
        for (int p = 0; p < bs; p++) {
            double sum = 0;
            for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++) {
                if (s.ci[k] == bi) continue;
                for (int j = 0; j < bs; j++) {
                    double x = 0;
                    for (int q = 0; q < bs; q++) x += di[bi](p, q) * s.at(k, q, j);
                    sum += std::fabs(x);
                }
            }
            m = std::max(m, sum);
        }
    return m;
}
int tri_depth(const Sys &s) {
    std::vector<int> lo(s.nb, 0), up(s.nb, 0);
    int m = 0;
    for (int i = 0; i < s.nb; i++) {
        for (int k = s.rp[i]; k < s.rp[i + 1]; k++)
            if (s.ci[k] < i) lo[i] = std::max(lo[i], lo[s.ci[k]] + 1);
        m = std::max(m, lo[i]);
    }
    for (int i = s.nb - 1; i >= 0; i--) {
        for (int k = s.rp[i]; k < s.rp[i + 1]; k++)
            if (s.ci[k] > i) up[i] = std::max(up[i], up[s.ci[k]] + 1);
        m = std::max(m, up[i]);
    }
    return m;
}
int ilu_depth(const Sys &s) {
    int nb = s.nb, m = 0;
    std::vector<int> d((size_t)nb * nb, -1);
    auto pat = pattern(s);
    for (int i = 0; i < nb; i++)
        for (int j = 0; j < nb; j++) {
            if (!pat[(size_t)i * nb + j]) continue;
            int x = 0;
            for (int k = 0; k < std::min(i, j); k++)
                if (pat[(size_t)i * nb + k] && pat[(size_t)k * nb + j])
                    x = std::max({x, d[(size_t)i * nb + k] + 1, d[(size_t)k * nb + j] + 1});
            if (j < i) x = std::max(x, d[(size_t)j * nb + j] + 1);
            d[(size_t)i * nb + j] = x;
            m = std::max(m, x);
        }
    return m;
}

// ------------------------------------------------------------------ generators
static void gen_pattern(Sys &s, const GenOpt &o, Rng &r) {
    int nb = o.nb;
    std::vector<char> p((size_t)nb * nb, 0);
    auto set = [&](int i, int j) { p[(size_t)i * nb + j] = 1; };
    for (int i = 0; i < nb; i++) set(i, i);
    double den = o.density / 100.0;
    switch (o.pat) {
    case P_RAND_SYM: case P_RAND_NONSYM:
        for (int i = 0; i < nb; i++)
            for (int j = 0; j < i; j++) {
                if (o.pat == P_RAND_SYM) { if (r.chance(den)) { set(i, j); set(j, i); } }
                else { if (r.chance(den)) set(i, j); if (r.chance(den)) set(j, i); }
            }
        break;
    case P_BAND: {
        int w = 1 + (int)r.below(3);
        for (int i = 0; i < nb; i++)
            for (int j = std::max(0, i - w); j < i; j++) { set(i, j); set(j, i); }
        break;
    }
    case P_GRID: {
        int w = std::max(2, (int)std::lround(std::sqrt((double)nb)));
        for (int i = 0; i < nb; i++) {
            if ((i % w) + 1 < w && i + 1 < nb) { set(i, i + 1); set(i + 1, i); }
            if (i + w < nb) { set(i, i + w); set(i + w, i); }
        }
        break;
    }
    case P_ARROW:
        for (int i = 1; i < nb; i++) { set(0, i); set(i, 0); }
        break;
    case P_RARROW:
        for (int i = 0; i + 1 < nb; i++) { set(nb - 1, i); set(i, nb - 1); }
        break;
    case P_FULL:
        for (int i = 0; i < nb; i++)
            for (int j = 0; j < nb; j++) set(i, j);
        break;
    case P_TRI:
        for (int i = 0; i + 1 < nb; i++) { set(i, i + 1); set(i + 1, i); }
        break;
    case P_BLOCKS: {  // decoupled clusters, some rows isolated
        int i = 0;
        while (i < nb) {
            int w = 1 + (int)r.below(4);
            for (int a = i; a < std::min(nb, i + w); a++)
                for (int b = i; b < std::min(nb, i + w); b++) set(a, b);
            i += w;
        }
        break;
    }
    default: break;
    }
    s.rp.assign(1, 0);
    s.ci.clear();
    s.di.clear();
    for (int i = 0; i < nb; i++) {
        for (int j = 0; j < nb; j++)
            if (p[(size_t)i * nb + j]) {
                if (i == j) s.di.push_back((int)s.ci.size());
                s.ci.push_back(j);
            }
        s.rp.push_back((int)s.ci.size());
    }
}
void gen_values(Sys &s, const GenOpt &o) {
    Rng r(sim::mix(o.seed, 0x5151));
    int bs = s.bs;
    s.v.assign((size_t)s.nnzb() * bs * bs, 0.0);
    bool mm = o.kind == K_MMATRIX;
    for (int bi = 0; bi < s.nb; bi++)
        for (int p = 0; p < bs; p++) {
            double sum = 0;
            for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++)
                for (int q = 0; q < bs; q++) {
                    if (s.ci[k] == bi && p == q) continue;
                    double x = 0.05 + r.unit();
                    if (s.ci[k] == bi) x *= 0.4;
                    if (mm) x = -x;
                    else if (r.chance(0.5)) x = -x;
                    if (!mm && r.chance(0.05)) x = 0;
                    s.at(k, p, q) = x;
                    sum += std::fabs(x);
                }
            double diag = mm ? 0.25 + 0.75 * r.unit() : 0.5 + r.unit();
            if (o.small_diag && !mm) diag *= std::pow(4.0, (int)r.below(5) - 2);
            double dom = o.dom / 100.0 * (0.7 + 0.3 * r.unit());
            double f = sum > 0 ? dom * diag / sum : 0;
            for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++)
                for (int q = 0; q < bs; q++)
                    if (!(s.ci[k] == bi && p == q)) s.at(k, p, q) *= f;
            if (o.neg_diag && r.chance(0.4)) diag = -diag;
            s.at(s.di[bi], p, p) = diag;
        }
    s.rexp.clear();
    if (o.gexp || o.rexp) {   // powers of two: the solutions stay as they are
        Rng q(sim::mix((uint64_t)o.gexp * 64 + o.rexp, s.nb));
        for (int bi = 0; bi < s.nb; bi++) {
            s.rexp.push_back(o.gexp + (o.rexp ? q.range(-o.rexp, o.rexp) : 0));
            for (size_t k = (size_t)s.rp[bi] * bs * bs; k < (size_t)s.rp[bi + 1] * bs * bs; k++) s.v[k] = std::ldexp(s.v[k], s.rexp[bi]);
        }
    }
}
Sys gen(const GenOpt &o) {
    Sys s;
    s.nb = o.nb; s.bs = o.bs; s.rm = o.rm;
    Rng r(sim::mix(o.seed, 0xabc));
    gen_pattern(s, o, r);
    gen_values(s, o);
    return s;
}
Sys renumbered(const Sys &s) {
    Sys t;
    t.nb = s.nb; t.bs = s.bs; t.rm = s.rm;
    t.rexp.assign(s.rexp.rbegin(), s.rexp.rend());
    t.rp.push_back(0);
    size_t q = (size_t)s.bs * s.bs;
    for (int i = s.nb - 1; i >= 0; i--) {
        t.di.push_back(-1);
        for (int k = s.rp[i + 1] - 1; k >= s.rp[i]; k--) {
            if (s.ci[k] == i) t.di.back() = (int)t.ci.size();
            t.ci.push_back(s.nb - 1 - s.ci[k]);
            t.v.insert(t.v.end(), s.v.begin() + k * q, s.v.begin() + (k + 1) * q);
        }
        t.rp.push_back((int)t.ci.size());
    }
    return t;
}
void scale_offdiag_to_rho(Sys &s, double target) {
    double c = rho(s);
    if (c <= 0) return;
    double f = target / c;
    for (int bi = 0; bi < s.nb; bi++)
        for (int k = s.rp[bi]; k < s.rp[bi + 1]; k++)
            if (s.ci[k] != bi)
                for (int i = 0; i < s.bs * s.bs; i++) s.v[(size_t)k * s.bs * s.bs + i] *= f;
}
Vec gen_vec(Rng &r, int n, bool nonneg) {
    Vec v(n);
    for (auto &x : v) {
        x = 0.1 + r.unit();
        if (nonneg) { if (r.chance(0.15)) x = 0; }
        else if (r.chance(0.5)) x = -x;
    }
    if (n > 0 && r.chance(0.1)) {   // mostly zeros, a unit vector, or nothing at all
        double keep = r.chance(0.15) ? 0 : 0.3;
        int one = r.chance(0.5) ? (int)r.below(n) : -1;
        for (int i = 0; i < n; i++)
            if (i != one && (one >= 0 || !r.chance(keep))) v[i] = 0;
    }
    return v;
}
Vec gen_rhs(Rng &r, const Sys &s, bool nonneg) {
    Vec v = gen_vec(r, s.n(), nonneg);
    if (s.rexp.size())
        for (int i = 0; i < s.n(); i++) v[i] = std::ldexp(v[i], s.rexp[i / s.bs]);
    return v;
}
double maxabs(const Vec &v) {
    double m = 0;
    for (double x : v) m = std::max(m, std::fabs(x));
    return m;
}
double maxdiff(const double *a, const Vec &b) {
    double m = 0;
    for (size_t i = 0; i < b.size(); i++) {
        double d = std::fabs(a[i] - b[i]);
        if (!(d <= m)) m = d;
    }
    return m;
}
bool close(const double *a, const Vec &b, double tol, int *where) {
    double lim = tol * (1 + maxabs(b));
    for (size_t i = 0; i < b.size(); i++)
        if (!(std::fabs(a[i] - b[i]) <= lim)) {
            if (where) *where = (int)i;
            return false;
        }
    return true;
}
}
