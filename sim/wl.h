// Workload interface and helpers shared by all workloads.
#pragma once
#include "core.h"
#include "model.h"
#include <memory>
#include <stdexcept>
#include "solverfactory.hpp"
#include "srmatrixdefs.hpp"

using sim::Params;
using sim::Rng;
using sim::RunConfig;
using sim::Sut;
using model::Sys;
using model::Vec;

struct Workload {
    const char *id;
    Params (*gen)(Rng &r, int tier);
    void (*body)(const Params &p);
    RunConfig (*cfg)(const Params &p);       // null: base_cfg
    bool two_poisons;                        // run twice with different fill patterns and compare outputs
};
const Workload *find_workload(const std::string &id);
extern const std::vector<Workload> &workloads();

extern bool values_off;                     // P12: only memory behaviour counts

int64_t get(const Params &p, const char *k, int64_t dflt = 0);
RunConfig base_cfg(const Params &p);
[[noreturn]] void bad(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void badv(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));  // value failure

// ---- matrices and vectors handed to the code under test (exact size, red zones around)
struct Held {
    const Sys &s;
    int *rp, *ci, *di, *re;
    double *v;
    explicit Held(const Sys &sys, int align = 64);
    ~Held();
    Held(const Held &) = delete;
    void set_values(const Vec &nv);          // the application changes the matrix values
    void check_unmodified(const char *when) const;
    blasted::SRMatrixStorage<const double, const int> wrap() const;
    blasted::CRawBSRMatrix<double, int> raw() const;
};
struct HVec {
    double *d;
    int n;
    Vec orig;
    explicit HVec(const Vec &x, int align = 8);
    ~HVec();
    HVec(const HVec &) = delete;
    void check_unmodified(const char *when) const;
    Vec get() const { return Vec(d, d + n); }
    void set(const Vec &x);
};
struct HInts {
    int *d;
    int n;
    explicit HInts(const std::vector<int> &x);
    ~HInts();
    HInts(const HInts &) = delete;
};

// ---- preconditioners
enum Type { T_JACOBI, T_GS, T_SGS, T_ILU0, T_SEQILU0, T_SFILU0, T_SAPILU0, T_CSCBGS, T_LEVELSGS, T_ALEVELILU0, T_NOPREC, NTYPES };
extern const char *type_names[];
struct Settings {
    int type = T_ILU0;
    int chunk = 1;
    bool scale = false;
    int bsw = 1, asw = 1;
    int finit = blasted::INIT_F_ORIGINAL, ainit = blasted::INIT_A_ZERO;
    bool info = false;
    bool relax = false;
};
struct Prec {
    blasted::SRPreconditioner<double, int> *p = nullptr;
    Prec() {}
    Prec(const Held &h, const Settings &st) { create(h, st); }
    void create(const Held &h, const Settings &st);
    blasted::PrecInfo compute();
    void apply(const HVec &r, HVec &z) const;
    void relax(const HVec &b, HVec &x, int maxits, bool ctol = false, double rtol = 0, double atol = 0, double dtol = 1e300);
    void destroy();
    ~Prec() { destroy(); }
    Prec(const Prec &) = delete;
};

// what one application (or relaxation of so many steps) of a preconditioner must give: an exact vector, or a bound on
// the distance from the exact solution
struct Expect {
    Vec ref;
    bool exact = true;
    double lim = 0;
};
Expect expect_apply(int type, bool relax, const Sys &s, const model::Ilu &f, const Vec &rv, const Vec &x0, int steps);
void judge_apply(const char *cls, const char *who, int type, bool relax, const Sys &s, const Params &p, const Expect &e, const double *z);

// ---- Matrix Market files: generation (with faults), and the strict reading of the bytes delivered
struct MM {
    enum { VALID, ANY, INVALID } st = VALID;
    bool array = false;
    int rows = 0, cols = 0;
    std::vector<int> ri, ci;
    std::vector<std::string> val;
    std::string why;
};
void gen_mm(Params &p, Rng &r);
bool mm_put(const Params &p, const std::string &name, int bs, bool arr, bool rect, int rows, int *dims = nullptr);
MM mm_strict(const std::string &bytes, bool want_array);

// ---- generation of the common parameters
struct SysOpt {
    bool units = false;          // may be given in other units
    bool symmetric = true;       // only structurally symmetric patterns
    int kind = -1;               // -1 general
    int max1 = 14, max4 = 5;     // size bounds (rows / block rows)
    bool blocks = true;
    int min_nb = 1;
    int big1 = 60, big4 = 14;    // size bounds of the occasional larger system
    double pbig = 0.012;         // how often
    int huge1 = 300, huge4 = 60; // and of a rare much larger one of bounded dependency depth
    double phuge = 0.001;
    int giant1 = 2200, giant4 = 300;   // and of a very rare one, beyond sizes below which a loop might take a short cut
    double pgiant = 0.0004;
    bool hugearrow = true;       // with rows that hold hundreds of blocks
};
void gen_sys_params(Params &p, Rng &r, const SysOpt &o);
void gen_run_params(Params &p, Rng &r, int min_threads = 1);   // threads, lag, team reduction, fill pattern
int gen_chunk(const Params &p, Rng &r);                         // scheduling chunk of the worksharing loops
Sys make_sys(const Params &p);
inline int lag_of(const Params &p) { return (int)get(p, "lag", -1); }
// number of sweeps after which a computation of dependency depth L has terminated
int sweeps_for(int depth, const Params &p, int extra = 0);
double tol_for(const Sys &s);
