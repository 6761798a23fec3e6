// Small executable reference models (serial, dense) and the input generators.
#pragma once
#include "core.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <vector>

namespace model {
using sim::Rng;
using Vec = std::vector<double>;

// A square matrix of dense bs x bs blocks stored by block rows (columns ascending in every row).
struct Sys {
    int nb = 0, bs = 1;
    bool rm = true;               // layout inside blocks
    std::vector<int> rp, ci, di;
    Vec v;
    std::vector<int> rexp;        // row i of blocks was multiplied by 2^rexp[i] (empty: none)
    int n() const { return nb * bs; }
    int nnzb() const { return rp.empty() ? 0 : rp[nb]; }
    size_t off(int i, int j) const { return rm ? (size_t)i * bs + j : (size_t)j * bs + i; }
    double &at(int k, int i, int j) { return v[(size_t)k * bs * bs + off(i, j)]; }
    double at(int k, int i, int j) const { return v[(size_t)k * bs * bs + off(i, j)]; }
    int find(int bi, int bj) const {
        for (int k = rp[bi]; k < rp[bi + 1]; k++)
            if (ci[k] == bj) return k;
        return -1;
    }
};

struct Dense {
    int n = 0;
    Vec a;
    explicit Dense(int m = 0) : n(m), a((size_t)m * m, 0.0) {}
    double &operator()(int i, int j) { return a[(size_t)i * n + j]; }
    double operator()(int i, int j) const { return a[(size_t)i * n + j]; }
};

Sys renumbered(const Sys &s);                            // the rows and columns in reverse order
Dense dense(const Sys &s);
std::vector<char> pattern(const Sys &s);                 // nb x nb
Vec scaling(const Sys &s);                               // 1/sqrt(diag)
bool invert(const double *a, int m, double *out);        // dense m x m, partial pivoting
Vec matvec(const Sys &s, const Vec &x);

// Block ILU(0): L has unit diagonal blocks, U holds the diagonal blocks.
struct Ilu {
    int nb = 0, bs = 1;
    Dense L, U;
    std::vector<char> pat;
    Vec scale;      // empty if not scaled
    bool ok = true;
};
Ilu ilu0(const Sys &s, bool scaled);
Vec ilu_solve(const Ilu &f, const Vec &r);               // S U^-1 L^-1 S r
Vec lower_solve(const Ilu &f, const Vec &r);
std::vector<Dense> diag_inv(const Sys &s);
Vec apply_dinv(const Sys &s, const std::vector<Dense> &di, const Vec &r);
Vec sgs(const Sys &s, const Vec &r);                     // (D+U)^-1 D (D+L)^-1 r
void gs_sweep(const Sys &s, const std::vector<Dense> &di, const Vec &b, Vec &x, bool forward);
Vec solve(const Sys &s, const Vec &b);                   // exact solution
double rho(const Sys &s);                                // || D^-1 (A-D) ||_inf

int tri_depth(const Sys &s);                             // dependency depth of forward/backward solves (max of both)
int ilu_depth(const Sys &s);                             // dependency depth of the ILU(0) entries

// generation -------------------------------------------------------------------
enum Pat { P_RAND_SYM, P_BAND, P_GRID, P_ARROW, P_RARROW, P_FULL, P_TRI, P_DIAG, P_RAND_NONSYM, P_BLOCKS, NPAT };
enum Kind { K_GENERAL, K_MMATRIX };
struct GenOpt {
    int nb = 4, bs = 1, pat = 0, kind = 0;
    bool rm = true;
    double density = 40;       // percent
    int dom = 80;              // percent: off-diagonal absolute row sum relative to the diagonal
    bool small_diag = false;   // diagonal scaled to different magnitudes
    bool neg_diag = false;
    int gexp = 0, rexp = 0;    // everything times 2^gexp, block-row i times 2^e, |e| <= rexp
    uint64_t seed = 1;
};
Sys gen(const GenOpt &o);
void gen_values(Sys &s, const GenOpt &o);
void scale_offdiag_to_rho(Sys &s, double target);
Vec gen_vec(Rng &r, int n, bool nonneg = false);
Vec gen_rhs(Rng &r, const Sys &s, bool nonneg = false);   // in the units of the rows of s

double maxabs(const Vec &v);
double maxdiff(const double *a, const Vec &b);
// true if |a-b| <= tol*(1+max|b|) for all entries (NaN is a difference)
bool close(const double *a, const Vec &b, double tol, int *where = nullptr);
}
