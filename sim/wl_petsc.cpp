// P19: the PETSc plugin, run against a simulated PETSc: solver trees, options database, clocks, failing calls.
#include "wl.h"
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <map>
#include "petsc_sim.h"
#define Vec PVec
#include "blasted_petsc.h"
#include "blasted_petsc_ext.hpp"
#undef Vec

using namespace model;
using sim::NoSut;

extern "C" {
Blasted_data_list newBlastedDataList() __attribute__((weak));
void computeTotalTimes(Blasted_data_list *const) __attribute__((weak));
void destroyBlastedDataList(Blasted_data_list *const) __attribute__((weak));
PetscErrorCode setup_blasted_stack(KSP, Blasted_data_list *const) __attribute__((weak));
}
namespace blasted {
int setup_blasted_stack_ext(KSP, const FactoryBase<double, int> &, Blasted_data_list *const) __attribute__((weak));
}

// ================================================================ simulated PETSc
PSim *P;
bool petsc_fault(const char *fn) {
    sim::yield_point();
    bool o = !strncmp(fn, "PetscOptions", 12);
    if (o && !P->opt_faults) return false;
    if (P->inject_at >= 0 && P->calls++ == P->inject_at) {
        NoSut ns;
        P->fired = true;
        P->fired_in = fn;
        sim::faults().api_fail++;
        if (o) sim::abort_is_failstop = true;    // documented to end the program
        return true;
    }
    return false;
}
static const std::string *opt(const char *n) {
    auto it = P->opts.find(n);
    return it == P->opts.end() ? nullptr : &it->second;
}
extern "C" {
int MPI_Comm_size(MPI_Comm, int *n) { *n = 1; return 0; }
int MPI_Comm_rank(MPI_Comm, int *r) { *r = 0; return 0; }
int MPI_Barrier(MPI_Comm) { return 0; }
double MPI_Wtime(void) { return sim::now_us() * 1e-6; }
PetscErrorCode PetscError(MPI_Comm, int, const char *, const char *, PetscErrorCode e, PetscErrorType, const char *, ...) { return e ? e : PETSC_ERR_PLIB; }
PetscErrorCode PetscPrintf(MPI_Comm, const char *, ...) { return 0; }
PetscErrorCode PetscTime(PetscLogDouble *t) { *t = sim::now_us() * 1e-6; return 0; }
PetscErrorCode PetscGetCPUTime(PetscLogDouble *t) { *t = sim::now_us() * 1e-6; return 0; }
PetscErrorCode PetscStrcmp(const char *a, const char *b, PetscBool *f) { *f = a && b && !strcmp(a, b) ? PETSC_TRUE : PETSC_FALSE; return 0; }
PetscErrorCode PetscStrncpy(char *d, const char *s, size_t n) { NoSut ns; if (n) { strncpy(d, s, n - 1); d[n - 1] = 0; } return 0; }
PetscErrorCode PetscErrorMessage(int, const char **t, char **s) { if (t) *t = "simulated PETSc error"; if (s) *s = nullptr; return 0; }
PetscErrorCode PetscObjectTypeCompare(PetscObject o, const char *t, PetscBool *f) {  // only ever asked about a PC here
    FAULT();
    *f = o && !strcmp(((PC)o)->type, t) ? PETSC_TRUE : PETSC_FALSE;
    return 0;
}
PetscErrorCode PetscObjectGetComm(PetscObject, MPI_Comm *c) { *c = PETSC_COMM_SELF; return 0; }
PetscErrorCode PetscOptionsHasName(PetscOptions, const char *, const char *n, PetscBool *f) { FAULT(); NoSut ns; *f = opt(n) ? PETSC_TRUE : PETSC_FALSE; return 0; }
PetscErrorCode PetscOptionsGetInt(PetscOptions, const char *, const char *n, PetscInt *v, PetscBool *f) {
    FAULT();
    NoSut ns;
    auto *o = opt(n);
    if (f) *f = o ? PETSC_TRUE : PETSC_FALSE;
    if (o) sim::stores(v, sizeof *v), *v = atoi(o->c_str());
    return 0;
}
PetscErrorCode PetscOptionsGetReal(PetscOptions, const char *, const char *n, PetscReal *v, PetscBool *f) {
    FAULT();
    NoSut ns;
    auto *o = opt(n);
    if (f) *f = o ? PETSC_TRUE : PETSC_FALSE;
    if (o) sim::stores(v, sizeof *v), *v = atof(o->c_str());
    return 0;
}
PetscErrorCode PetscOptionsGetBool(PetscOptions, const char *, const char *n, PetscBool *v, PetscBool *f) {
    FAULT();
    NoSut ns;
    auto *o = opt(n);
    if (f) *f = o ? PETSC_TRUE : PETSC_FALSE;
    if (o) sim::stores(v, sizeof *v), *v = o->empty() || *o == "1" || *o == "true" || *o == "yes" ? PETSC_TRUE : PETSC_FALSE;
    return 0;
}
PetscErrorCode PetscOptionsGetString(PetscOptions, const char *, const char *n, char *v, size_t len, PetscBool *f) {
    FAULT();
    NoSut ns;
    auto *o = opt(n);
    if (f) *f = o ? PETSC_TRUE : PETSC_FALSE;
    if (o && len) { sim::stores(v, std::min(len, o->size() + 1)); strncpy(v, o->c_str(), len - 1); v[len - 1] = 0; }
    return 0;
}
PetscErrorCode PetscOptionsGetIntArray(PetscOptions, const char *, const char *n, PetscInt *v, PetscInt *nm, PetscBool *f) {
    FAULT();
    NoSut ns;
    auto *o = opt(n);
    if (f) *f = o ? PETSC_TRUE : PETSC_FALSE;
    if (!o) { *nm = 0; return 0; }
    int k = 0;
    const char *c = o->c_str();
    while (*c && k < *nm) {
        sim::stores(v + k, sizeof *v);
        v[k++] = atoi(c);
        c = strchr(c, ',');
        if (!c) break;
        c++;
    }
    *nm = k;
    return 0;
}
PetscErrorCode VecGetArray(PVec v, PetscScalar **a) { FAULT(); v->wr++; *a = v->d; return 0; }
PetscErrorCode VecRestoreArray(PVec v, PetscScalar **a) { v->wr--; if (a) *a = nullptr; return 0; }
PetscErrorCode VecGetArrayWrite(PVec v, PetscScalar **a) { return VecGetArray(v, a); }
PetscErrorCode VecRestoreArrayWrite(PVec v, PetscScalar **a) { return VecRestoreArray(v, a); }
PetscErrorCode VecGetArrayRead(PVec v, const PetscScalar **a) { FAULT(); v->rd++; *a = v->d; return 0; }
PetscErrorCode VecRestoreArrayRead(PVec v, const PetscScalar **a) { v->rd--; if (a) *a = nullptr; return 0; }
PetscErrorCode VecGetOwnershipRange(PVec v, PetscInt *s, PetscInt *e) { FAULT(); if (s) *s = 0; if (e) *e = v->n; return 0; }
PetscErrorCode VecGetLocalSize(PVec v, PetscInt *n) { FAULT(); *n = v->n; return 0; }
PetscErrorCode VecGetSize(PVec v, PetscInt *n) { FAULT(); *n = v->n; return 0; }
PetscErrorCode VecSet(PVec v, PetscScalar x) { FAULT(); for (int i = 0; i < v->n; i++) v->d[i] = x; return 0; }
PetscErrorCode VecZeroEntries(PVec v) { return VecSet(v, 0); }

static int pm(Mat A) { return sm(A).b ? sm(A).b->M : sm(A).s->n(); }
static int pn(Mat A) { return sm(A).b ? sm(A).b->N : sm(A).s->n(); }
PetscErrorCode MatGetOwnershipRange(Mat A, PetscInt *s, PetscInt *e) { FAULT(); if (s) *s = 0; if (e) *e = pm(A); return 0; }
PetscErrorCode MatGetLocalSize(Mat A, PetscInt *m, PetscInt *n) { FAULT(); if (m) *m = pm(A); if (n) *n = pn(A); return 0; }
PetscErrorCode MatGetSize(Mat A, PetscInt *m, PetscInt *n) { FAULT(); if (m) *m = pm(A); if (n) *n = pn(A); return 0; }
PetscErrorCode MatGetBlockSize(Mat A, PetscInt *b) { FAULT(); *b = sm(A).b ? std::max(1, sm(A).b->bs) : sm(A).bs; return 0; }
PetscErrorCode MatGetType(Mat A, MatType *t) { FAULT(); *t = sm(A).b ? sm(A).b->type.c_str() : sm(A).type; return 0; }
PetscErrorCode MatMissingDiagonal(Mat A, PetscBool *m, PetscInt *row) {
    FAULT();
    SimMat &s = sm(A);
    *m = s.missing >= 0 ? PETSC_TRUE : PETSC_FALSE;
    if (row && s.missing >= 0) *row = s.missing;
    s.bd.diag = s.h->di;    // located by this very call
    return 0;
}
PetscErrorCode KSPGetPC(KSP k, PC *p) { FAULT(); *p = k->pc; return 0; }
PetscErrorCode KSPGetType(KSP, KSPType *t) { *t = KSPPREONLY; return 0; }
PetscErrorCode KSPGetOperators(KSP k, Mat *A, Mat *B) { FAULT(); if (A) *A = k->A; if (B) *B = k->P; return 0; }
PetscErrorCode PCGetOperators(PC p, Mat *A, Mat *B) { FAULT(); if (A) *A = p->A; if (B) *B = p->P; return 0; }
PetscErrorCode PCGetType(PC p, PCType *t) { *t = p->type; return 0; }
PetscErrorCode PCSetUp(PC p) {
    FAULT();
    if (!strcmp(p->type, PCSHELL) && p->setup) {
        PetscErrorCode e = p->setup(p);
        if (e) return e;
    }
    p->isset = true;
    return 0;
}
PetscErrorCode KSPSetUp(KSP k) {
    FAULT();
    k->isset = true;
    return PCSetUp(k->pc);
}
static PetscErrorCode subs(PC p, const char *t1, const char *t2, PetscInt *n, PetscInt *f, KSP **s) {
    if (strcmp(p->type, t1) && strcmp(p->type, t2)) return PETSC_ERR_ARG_WRONG;
    if (!p->isset) return PETSC_ERR_ARG_WRONGSTATE;
    if (n) *n = p->nlocal;
    if (f) *f = 0;
    if (s) *s = p->sub.data();
    return 0;
}
PetscErrorCode PCBJacobiGetSubKSP(PC p, PetscInt *n, PetscInt *f, KSP **s) { FAULT(); return subs(p, PCBJACOBI, PCBJACOBI, n, f, s); }
PetscErrorCode PCASMGetSubKSP(PC p, PetscInt *n, PetscInt *f, KSP **s) { FAULT(); return subs(p, PCASM, PCASM, n, f, s); }
PetscErrorCode PCMGGetLevels(PC p, PetscInt *n) { FAULT(); return subs(p, PCMG, PCGAMG, nullptr, nullptr, nullptr) ?: (*n = (int)p->sub.size(), 0); }
PetscErrorCode PCMGGetSmoother(PC p, PetscInt l, KSP *k) {
    FAULT();
    if (l < 0 || l >= (int)p->sub.size()) return PETSC_ERR_ARG_OUTOFRANGE;
    *k = p->sub[l];
    return 0;
}
PetscErrorCode PCMGGetSmootherUp(PC p, PetscInt l, KSP *k) { return PCMGGetSmoother(p, l, k); }
PetscErrorCode PCMGGetSmootherDown(PC p, PetscInt l, KSP *k) { return PCMGGetSmoother(p, l, k); }
PetscErrorCode PCMGGetCoarseSolve(PC p, KSP *k) { return PCMGGetSmoother(p, 0, k); }
PetscErrorCode PCKSPGetKSP(PC p, KSP *k) { FAULT(); KSP *s; PetscErrorCode e = subs(p, PCKSP, PCKSP, nullptr, nullptr, &s); if (!e) *k = s[0]; return e; }
PetscErrorCode PCShellGetContext(PC p, void **c) { FAULT(); *c = p->ctx; return 0; }
PetscErrorCode PCShellSetContext(PC p, void *c) { FAULT(); p->ctx = c; return 0; }
PetscErrorCode PCShellSetName(PC p, const char *n) { FAULT(); NoSut ns; p->name = n; return 0; }
PetscErrorCode PCShellGetName(PC p, const char **n) { *n = p->name.c_str(); return 0; }
PetscErrorCode PCShellSetSetUp(PC p, PetscErrorCode (*f)(PC)) { FAULT(); p->setup = f; return 0; }
PetscErrorCode PCShellSetApply(PC p, PetscErrorCode (*f)(PC, PVec, PVec)) { FAULT(); p->apply = f; return 0; }
PetscErrorCode PCShellSetDestroy(PC p, PetscErrorCode (*f)(PC)) { FAULT(); p->destroy = f; return 0; }
PetscErrorCode PCShellSetApplyRichardson(PC p, PetscErrorCode (*f)(PC, PVec, PVec, PVec, PetscReal, PetscReal, PetscReal, PetscInt, PetscBool, PetscInt *, PCRichardsonConvergedReason *)) { FAULT(); p->rich = f; return 0; }
}

// ================================================================ an application's own factory
namespace {
typedef blasted::SRPreconditioner<double, int> SRP;
typedef blasted::SRMatrixStorage<const double, const int> MatS;
typedef blasted::SolveParams<double> SolveP;
struct Want {                    // what the options in force when a preconditioner is made ask for
    int type, bs, nbrows, nnzb, bsw, asw, chunk;
    int finit, ainit;            // -1: any
    bool async, scale, info;
};
struct Tally {
    const Want *want = nullptr;
    int created = 0, ext = 0, bs = 0;
    bool colmajor = true;
    int64_t us = 0;              // simulated time spent inside the last compute/apply
    uint64_t seed = 1;
    bool slow = false, step = false;
} *T;
MatS view(const MatS &m) {
    return MatS(&m.browptr[0], &m.bcolind[0], &m.vals[0], &m.diagind[0], &m.browendptr[0], m.nbrows, m.nnzb, m.nbstored, T->bs);
}
struct Timed {
    int64_t t0;
    Timed() : t0(sim::now_us()) {
        if (T->slow) sim::clock_pass((int64_t)(sim::mix(T->seed++, 5) % 2000000));
        if (T->step) { sim::clock_step((int64_t)(sim::mix(T->seed++, 6) % 4000000) - 2000000); sim::faults().clock_step++; }
    }
    ~Timed() { T->us = sim::now_us() - t0; }
};
struct Proxy : SRP {  // adds a clock around the library's own preconditioner
    SRP *in;
    Proxy(MatS &&m, SRP *p) : SRP(std::move(m)), in(p) {}
    ~Proxy() { delete in; }
    int dim() const { return in->dim(); }
    blasted::PrecInfo compute() { Timed t; return in->compute(); }
    void apply(const double *x, double *__restrict y) const { Timed t; in->apply(x, y); }
    void apply_relax(const double *x, double *__restrict y) const { Timed t; in->setApplyParams(this->solveparams); in->apply_relax(x, y); }
    bool relaxationAvailable() const { return in->relaxationAvailable(); }
};
struct Ext : SRP {    // a preconditioner the library does not know: three times the identity
    int n;
    Ext(MatS &&m, int d) : SRP(std::move(m)), n(d) {}
    int dim() const { return n; }
    blasted::PrecInfo compute() { Timed t; return blasted::PrecInfo(); }
    void apply(const double *x, double *__restrict y) const { Timed t; for (int i = 0; i < n; i++) y[i] = 3 * x[i]; }
    void apply_relax(const double *, double *__restrict) const { bad("wrong-method", "relaxation of a method that has none"); }
    bool relaxationAvailable() const { return false; }
};
struct TestFactory : blasted::FactoryBase<double, int> {
    blasted::SRFactory<double, int> in;
    SRP *create_preconditioner(MatS &&m, const blasted::SolverSettings &set) const {
        T->bs = set.bs;
        T->colmajor = set.blockstorage == blasted::ColMajor;
        T->created++;
        check_settings(m, set);
        if (set.prectype == BLASTED_EXTERNAL) {
            T->ext++;
            int n = m.nbrows * set.bs;
            return new Ext(std::move(m), n);
        }
        SRP *p = in.create_preconditioner(view(m), set);
        try {
            return new Proxy(std::move(m), p);
        } catch (...) { delete p; throw; }
    }
    static void check_settings(const MatS &m, const blasted::SolverSettings &set) {
        NoSut ns;
        const Want *w = T->want;
        if (!w) return;
        auto eq = [](const char *what, int have, int want) {
            if (have != want) bad("settings", "the application's factory is given %s %d where the options and the matrix say %d", what, have, want);
        };
        eq("preconditioner type", set.prectype, w->type);
        eq("block size", set.bs, w->bs);
        eq("block order", set.bs > 1 && set.blockstorage != blasted::ColMajor, 0);
        eq("number of rows", m.nbrows, w->nbrows);
        eq("number of non-zeros", m.nnzb, w->nnzb);
        eq("number of stored blocks", m.nbstored, w->nnzb);
        auto *as = dynamic_cast<const blasted::AsyncSolverSettings *>(&set);
        if (!as) return;
        eq("compute_precinfo", as->compute_precinfo, w->info);
        if (!w->async) return;
        eq("scale", as->scale, w->scale);
        eq("build sweeps", as->nbuildsweeps, w->bsw);
        eq("apply sweeps", as->napplysweeps, w->asw);
        eq("thread chunk size", as->thread_chunk_size, w->chunk);
        if (w->finit >= 0) eq("factor initialisation", as->fact_inittype, w->finit);
        if (w->ainit >= 0) eq("apply initialisation", as->apply_inittype, w->ainit);
    }
    BlastedSolverType solverTypeFromString(const std::string s) const {
        return s == "ext" ? BLASTED_EXTERNAL : in.solverTypeFromString(s);
    }
};

// ================================================================ the application
const char *finits[] = {"init_zero", "init_original", "init_sgs", "init_none"};
const char *ainits[] = {"init_zero", "init_jacobi", "init_none"};
enum { T_EXT = NTYPES };

struct Slot {
    KSP ksp;
    Mat A = nullptr, B = nullptr;   // preconditioning operator, the other one
    int mi = 0;
    int type = 0;
    bool scale = false, info = false, first = true, fresh = false, odd_wall = false;
    int ncomp = 0;
    std::map<std::string, std::string> opts;
    Ilu f;
    Want want;
    bool usable = true;             // block size supported
};
struct App {
    const Params &p;
    std::vector<Sys> sys;
    std::vector<std::unique_ptr<Held>> hs;
    std::vector<std::unique_ptr<_p_KSP>> ksps;
    std::vector<std::unique_ptr<_p_PC>> pcs;
    std::vector<std::unique_ptr<_p_Mat>> mats;
    std::vector<std::unique_ptr<SimMat>> smats;
    std::vector<Slot> slots;
    std::vector<KSP> roots;
    Blasted_data_list list;
    std::unique_ptr<TestFactory> fac;
    bool clock_ok = true;
    size_t lost = 0;        // blocks an exception of the library left behind
    explicit App(const Params &q) : p(q) {}

    int bs() const { return sys[0].bs; }
    Mat make_mat(int mi, const char *type, int mbs) {
        mats.emplace_back(new _p_Mat);
        smats.emplace_back(new SimMat);
        Mat A = mats.back().get();
        SimMat *s = smats.back().get();
        A->sim = s;
        s->attach(sys[mi], *hs[mi]);
        s->type = type;
        s->bs = mbs;
        A->data = &s->bd;
        return A;
    }
    KSP leaf(Rng &r, bool top) {
        KSP k = node(PCSHELL);
        Slot s;
        s.ksp = k;
        s.mi = (int)r.below(sys.size() - 1);      // the last system has an unsupported block size, if it is wanted
        if (get(p, "oddbs") && r.chance(0.2)) { s.mi = (int)sys.size() - 1; s.usable = false; }
        const Sys &m = sys[s.mi];
        static const char *aij[] = {MATSEQAIJ, MATSEQAIJ, MATSEQAIJMKL}, *baij[] = {MATSEQBAIJ, MATSEQBAIJ, MATSEQBAIJMKL};
        bool blk = m.bs > 1 || r.chance(0.2);
        const char *t = blk ? baij[r.below(3)] : aij[r.below(3)];
        s.A = make_mat(s.mi, t, blk ? m.bs : r.chance(0.3) ? 4 : 1);   // a scalar matrix with a block size set stays scalar
        s.B = r.chance(0.3) ? make_mat((s.mi + 1) % (sys.size() - 1), t, m.bs) : s.A;
        k->A = k->pc->A = s.B;
        k->P = k->pc->P = s.A;
        (void)top;
        slots.push_back(s);
        return k;
    }
    KSP node(const char *type) {
        pcs.emplace_back(new _p_PC);
        ksps.emplace_back(new _p_KSP);
        KSP k = ksps.back().get();
        k->pc = pcs.back().get();
        k->pc->type = type;
        return k;
    }
    KSP tree(Rng &r, int depth) {
        if (depth == 0 || r.chance(0.3)) {
            if (depth < 3 && r.chance(0.12)) {      // somebody else's preconditioner
                KSP k = node(r.chance(0.5) ? PCILU : PCLU);
                k->A = k->P = k->pc->A = k->pc->P = make_mat(0, MATSEQAIJ, 1);
                return k;
            }
            return leaf(r, depth == 3);
        }
        static const char *ty[] = {PCBJACOBI, PCASM, PCMG, PCGAMG, PCKSP};
        const char *t = ty[r.below(5)];
        KSP k = node(t);
        k->A = k->P = k->pc->A = k->pc->P = make_mat(0, bs() > 1 ? MATMPIBAIJ : MATMPIAIJ, bs());
        int n = !strcmp(t, PCMG) || !strcmp(t, PCGAMG) ? r.range(1, 3) : 1;
        for (int i = 0; i < n; i++) k->pc->sub.push_back(tree(r, depth - 1));
        return k;
    }
    void choose_options(Slot &s, Rng &r) {
        const Sys &m = sys[s.mi];
        s.opts.clear();
        do s.type = (int)r.below(fac ? NTYPES + 1 : NTYPES);
        while ((s.type == T_CSCBGS && m.bs != 1) || (!s.usable && (s.type == T_NOPREC || s.type == T_EXT)));
        int t = s.type;
        s.scale = false;
        bool ilu = t == T_ILU0 || t == T_SAPILU0 || t == T_ALEVELILU0;
        if (ilu) s.scale = r.chance(0.5);
        s.info = r.chance(0.25);
        s.opts["-blasted_pc_type"] = t == T_EXT ? "ext" : type_names[t];
        bool tf = ilu, ta = t == T_ILU0 || t == T_SFILU0 || t == T_SGS;
        int b = tf ? sweeps_for(ilu_depth(m), p) : 1 + (int)r.below(2), a = ta ? sweeps_for(tri_depth(m), p) : 1 + (int)r.below(2);
        if ((t == T_ILU0 || t == T_SAPILU0 || t == T_SFILU0) && r.chance(0.45)) {   // -1: sequential
            int w = (int)r.below(3);
            if (w != 0 && t != T_SAPILU0) a = -1;
            if (w != 1) b = -1;
            if (t == T_SFILU0 && w == 1) b = 1;
            if (t == T_SAPILU0 && r.chance(0.5)) a = -1;
        }
        if (t == T_SEQILU0 && r.chance(0.3)) (r.chance(0.5) ? a : b) = -1;    // it is sequential anyway
        static const int kinds[] = {BLASTED_JACOBI, BLASTED_GS, BLASTED_SGS, BLASTED_ILU0, BLASTED_SEQILU0, BLASTED_SFILU0, BLASTED_SAPILU0,
                                    BLASTED_CSC_BGS, BLASTED_LEVEL_SGS, BLASTED_ASYNC_LEVEL_ILU0, BLASTED_NO_PREC, BLASTED_EXTERNAL};
        static const int fkinds[] = {blasted::INIT_F_ZERO, blasted::INIT_F_ORIGINAL, blasted::INIT_F_SGS, blasted::INIT_F_NONE},
                         akinds[] = {blasted::INIT_A_ZERO, blasted::INIT_A_JACOBI, blasted::INIT_A_NONE};
        int fi = (int)r.below(4), ai = (int)r.below(t == T_SGS ? 3 : 2), chunk = 1 + (int)r.below(3);
        Want &w = s.want;
        w.type = kinds[t]; w.bs = m.bs; w.nbrows = m.nb; w.nnzb = m.nnzb(); w.bsw = b; w.asw = a; w.chunk = chunk;
        w.async = t != T_JACOBI && t != T_LEVELSGS && t != T_NOPREC;
        w.scale = s.scale; w.info = s.info;
        if (t == T_SEQILU0) {
            w.bsw = std::abs(b); w.asw = std::abs(a);
        } else {
            if ((a < 0 && b < 0) || (a < 0 && t == T_SFILU0) || (b < 0 && t == T_SAPILU0)) { w.type = BLASTED_SEQILU0; w.asw = w.bsw = 1; }
            else if (a < 0) { w.type = BLASTED_SAPILU0; w.asw = 1; }
            else if (b < 0) { w.type = BLASTED_SFILU0; w.bsw = 1; }
        }
        w.finit = w.type == kinds[t] && ilu ? fkinds[fi] : -1;
        w.ainit = akinds[ai];
        s.opts["-blasted_async_sweeps"] = std::to_string(b) + "," + std::to_string(a);
        s.opts["-blasted_use_symmetric_scaling"] = s.scale ? "true" : "false";
        s.opts["-blasted_async_fact_init_type"] = finits[fi];
        s.opts["-blasted_async_apply_init_type"] = ainits[ai];
        s.opts["-blasted_thread_chunk_size"] = std::to_string(chunk);
        if (s.info) s.opts["-blasted_compute_preconditioner_info"] = r.chance(0.5) ? "" : "true";
        else if (r.chance(0.5)) s.opts["-blasted_compute_preconditioner_info"] = "false";
    }

    // ---- calls into the plugin
    enum Res { OK, ERR, EXC };
    std::string what;
    bool dead = false;      // the library threw: all that is left to do is to destroy everything
    template <class F> Res call(F f) {
        int e = 0;
        try {
            Sut s;
            e = f();
        } catch (const std::exception &x) {
            what = x.what();
            return EXC;
        }
        what = "error code " + std::to_string(e);
        return e ? ERR : OK;
    }
    // one call with a fault armed now and then; false: a reported failure (the caller tries again without faults)
    template <class F> bool guarded(const char *name, Rng &r, bool faults, bool must_fail, F f) {
        P->inject_at = -1;
        P->fired = false;
        bool alloc = false;
        if (faults && r.chance(0.3)) {
            if (r.chance(0.5)) { P->calls = 0; P->inject_at = (int)r.below(r.chance(0.5) ? 6 : 30); }
            else { alloc = true; sim::set_alloc_fail((int)r.below(r.chance(0.5) ? 5 : 25)); }
        }
        Res q = call(f);
        bool fired = P->fired || (alloc && sim::alloc_fired());
        std::string in = P->fired ? P->fired_in : "memory allocation";
        P->inject_at = -1;
        P->fired = false;
        sim::abort_is_failstop = false;
        sim::set_alloc_fail(-1);
        if (must_fail) {
            if (q == OK) bad("error-hidden", "%s accepted what it cannot handle", name);
            return false;
        }
        if (fired && q == OK && in != "memory allocation") bad("error-hidden", "%s returned success although %s failed", name, in.c_str());
        if (!fired && q != OK) bad("spurious-error", "%s failed although nothing was wrong: %s", name, what.c_str());
        if (q == EXC) dead = true;
        return q == OK;
    }
    static Blasted_data *data(const Slot &s) { return (Blasted_data *)s.ksp->pc->ctx; }

    void setup(Slot &s, Rng &r, bool faults) {
        Rng ro(r.next());
        if (s.first) {
            P->opts = s.opts;
            if (ro.chance(0.05)) {       // wrong options first
                std::string keep = P->opts["-blasted_pc_type"];
                P->opts["-blasted_pc_type"] = ro.chance(0.5) ? "ilu7" : "sgsx";
                guarded("setup with an unknown preconditioner type", ro, false, true, [&] { return s.ksp->pc->setup(s.ksp->pc); });
                P->opts["-blasted_pc_type"] = keep;
            }
            bool tf = s.type == T_ILU0 || s.type == T_SAPILU0 || s.type == T_ALEVELILU0;
            if (s.usable && s.want.async && !tf && s.type != T_SFILU0 && s.type != T_SEQILU0 && s.type != T_EXT && ro.chance(0.06)) {
                std::string keep = P->opts["-blasted_async_sweeps"];     // sequential parts are for incomplete factorisations
                P->opts["-blasted_async_sweeps"] = ro.chance(0.5) ? "-1,2" : "2,-1";
                guarded("setup of a relaxation asked to be half sequential", ro, false, true, [&] { return s.ksp->pc->setup(s.ksp->pc); });
                P->opts["-blasted_async_sweeps"] = keep;
            }
            if (s.usable && ro.chance(0.03)) {   // a required option is missing (most of them end the program)
                std::vector<const char *> req = {"-blasted_pc_type"};
                if (s.want.async) {
                    req.insert(req.end(), {"-blasted_async_sweeps", "-blasted_async_apply_init_type", "-blasted_thread_chunk_size"});
                    if (tf) req.insert(req.end(), {"-blasted_use_symmetric_scaling", "-blasted_async_fact_init_type"});
                }
                std::string n = req[ro.below(req.size())], keep = P->opts[n];
                if (n == "-blasted_async_sweeps" && ro.chance(0.5)) P->opts[n] = "2";    // one number of two
                else P->opts.erase(n);
                sim::abort_is_failstop = true;
                guarded("setup without a required option", ro, false, true, [&] { return s.ksp->pc->setup(s.ksp->pc); });
                P->opts[n] = keep;
            }
            if (s.usable && ro.chance(0.08)) {   // a missing diagonal, found by the first setup
                sm(s.A).missing = (int)ro.below(sys[s.mi].nb);
                guarded("setup with a missing diagonal", ro, false, true, [&] { return s.ksp->pc->setup(s.ksp->pc); });
                sm(s.A).missing = -1;
            }
        } else {
            P->opts = slots[ro.below(slots.size())].opts;   // somebody else's options by now
        }
        if (!s.usable) {
            guarded("setup with an unsupported block size", ro, false, true, [&] { return s.ksp->pc->setup(s.ksp->pc); });
            return;
        }
        for (int attempt = 0;; attempt++) {
            Blasted_data *d = data(s);
            double fw = s.first ? 0 : d->factorwalltime, fcp = s.first ? 0 : d->factorcputime;
            T->us = 0;
            T->want = &s.want;
            int64_t t0 = sim::now_us();
            bool ok = guarded("setup", ro, faults && attempt == 0, false, [&] { return PCSetUp(s.ksp->pc); });
            int64_t t1 = sim::now_us();
            T->want = nullptr;
            if (dead) return;
            if (!ok) { if (clock_ok == false) s.odd_wall = true; continue; }
            if (s.first || attempt == 0) timing("setup", s, d->factorwalltime - fw, d->factorcputime - fcp, t1 - t0);
            break;
        }
        s.f = ilu0(sys[s.mi], s.scale);
        s.fresh = s.f.ok;
        s.ncomp++;
        Blasted_data *d = data(s);
        bool canrelax = s.type == T_JACOBI || s.type == T_GS || s.type == T_SGS || s.type == T_LEVELSGS;
        if ((s.ksp->pc->rich != nullptr) != canrelax)
            bad("relaxation", "%s: a relaxation is %s for the preconditioner", tname(s), canrelax ? "not offered" : "offered");
        auto *il = (blasted::PrecInfoList *)d->infolist;
        if (s.info != (il != nullptr)) bad("info", "%s: preconditioner information %s", tname(s), s.info ? "was asked for but is not there" : "that was not asked for");
        if (il && !faults && (int)il->infolist.size() != s.ncomp) bad("info", "%s: %zu entries of preconditioner information after %d setups", tname(s), il->infolist.size(), s.ncomp);
        if (fac && (T->bs != sys[s.mi].bs && s.first)) bad("settings", "factory asked for block size %d, the matrix has %d", T->bs, sys[s.mi].bs);
        if (fac && s.first && !T->colmajor && sys[s.mi].bs > 1) bad("settings", "factory asked for row-major blocks");
        s.first = false;
        hs[s.mi]->check_unmodified("setup");
    }
    const char *tname(const Slot &s) const { return s.type == T_EXT ? "ext" : type_names[s.type]; }
    void timing(const char *name, Slot &s, double dw, double dc, int64_t us) {
        double hi = us * 1e-6 + 3e-6, lo = fac ? T->us * 1e-6 - 3e-6 : -1e-12;
        if (T->step) s.odd_wall = true;
        if (!s.odd_wall && (dw > hi || dw < lo)) bad("timing", "%s: %.7f s of wall time accounted for, between %.7f and %.7f s passed", name, dw, lo, hi);
        if (dc > hi || dc < lo) bad("timing", "%s: %.7f s of processor time accounted for, between %.7f and %.7f s passed", name, dc, lo, hi);
    }
    void use(Slot &s, Rng &r, bool faults) {
        if (!s.usable) return;
        if (s.first || !s.fresh) setup(s, r, faults);
        if (dead) return;
        if (!s.f.ok) { sim::set_trivial(); return; }
        const Sys &m = sys[s.mi];
        Vec rv = gen_rhs(r, m), x0 = gen_vec(r, m.n());
        bool relax = s.ksp->pc->rich && r.chance(0.6), gz = relax && r.chance(0.4);
        int steps = r.range(1, 3);
        // the tolerances of the outer solver: its relaxations always do the iterations asked for
        static const double rt[] = {0, 1e-5, 0.5, 1, 1e3}, at[] = {1e-50, 1e-6, 1e3}, dt[] = {1e4, 1, 1e-3};
        const double rtol = rt[r.below(5)], atol = at[r.below(3)], dtol = dt[r.below(3)];
        bool guess = relax || s.type == T_GS;
        Blasted_data *d = data(s);
        for (int attempt = 0;; attempt++) {
            Vec start = guess ? x0 : Vec(m.n(), NAN);
            if (gz) start.assign(m.n(), NAN);
            HVec rr(rv), z(start), w(Vec(m.n(), NAN));
            _p_Vec vr = {rr.d, m.n(), 0, 0}, vz = {z.d, m.n(), 0, 0}, vw = {w.d, m.n(), 0, 0};
            PetscInt its = -7;
            PCRichardsonConvergedReason why = PCRICHARDSON_DIVERGED_DTOL;
            double aw = d->applywalltime, ac = d->applycputime;
            T->us = 0;
            int64_t t0 = sim::now_us();
            bool ok = guarded(relax ? "relaxation" : "application", r, faults && attempt == 0, false, [&] {
                PC pc = s.ksp->pc;
                return relax ? pc->rich(pc, &vr, &vz, &vw, rtol, atol, dtol, steps, gz ? PETSC_TRUE : PETSC_FALSE, &its, &why) : pc->apply(pc, &vr, &vz);
            });
            int64_t t1 = sim::now_us();
            rr.check_unmodified("the right-hand side");
            if (dead) return;
            if (!ok) continue;
            if (vr.rd || vr.wr || vz.rd || vz.wr || vw.rd || vw.wr) bad("vec-locked", "%s left the array of a vector checked out", relax ? "relaxation" : "application");
            timing(relax ? "relaxation" : "application", s, d->applywalltime - aw, d->applycputime - ac, t1 - t0);
            if (relax && its != steps) bad("relaxation", "%d iterations asked for, %d reported", steps, its);
            if (relax && why != PCRICHARDSON_CONVERGED_ITS) bad("relaxation", "reason %d reported", (int)why);
            sim::add_output(z.d, z.n * sizeof(double));
            if (s.type == T_EXT) {
                for (int i = 0; i < m.n(); i++)
                    if (z.d[i] != 3 * rv[i]) badv("history", "the application's own preconditioner was not used");
            } else {
                Expect e = expect_apply(s.type, relax, m, s.f, rv, gz ? Vec(m.n(), 0.0) : x0, steps);
                judge_apply("history", "plugin", s.type, relax, m, p, e, z.d);
            }
            break;
        }
        hs[s.mi]->check_unmodified("application");
    }
    void totals() {
        { Sut q; computeTotalTimes(&list); }
        double t[4] = {0, 0, 0, 0};
        int n = 0;
        for (Blasted_data *d = list.ctxlist; d; d = d->next, n++) {
            t[0] += d->factorwalltime; t[1] += d->factorcputime; t[2] += d->applywalltime; t[3] += d->applycputime;
        }
        const double g[4] = {list.factorwalltime, list.factorcputime, list.applywalltime, list.applycputime};
        for (int i = 0; i < 4; i++)
            if (!(std::fabs(g[i] - t[i]) <= 1e-9 * (1 + std::fabs(t[i])))) bad("timing", "total %d is %.9g, its parts add up to %.9g", i, g[i], t[i]);
        if (n != list.size) bad("list", "the list has %d members and says %d", n, list.size);
    }
    bool stack(KSP root, Rng &r, bool faults, bool must_fail) {
        const char *nm = fac ? "setup_blasted_stack_ext" : "setup_blasted_stack";
        P->opts.clear();
        return guarded(nm, r, faults, must_fail, [&] {
            return fac ? blasted::setup_blasted_stack_ext(root, *fac, &list) : setup_blasted_stack(root, &list);
        });
    }
    void destroy() {
        for (auto &pc : pcs)     // the application destroys its solvers first, then the list
            if (pc->destroy) {
                PC q = pc.get();
                if (call([&] { return q->destroy(q); }) != OK) bad("destroy", "destroying a preconditioner failed: %s", what.c_str());
            }
        if (call([&] { destroyBlastedDataList(&list); return 0; }) != OK) bad("destroy", "destroying the list failed: %s", what.c_str());
        if (list.ctxlist || list.size) bad("destroy", "the list is not empty after its destruction");
        size_t n = sim::live_sut_allocs();
        if (dead) lost = n;
        if (n > lost) bad("leak", "%zu blocks are still allocated after everything was destroyed:%s", n, sim::describe_live().c_str());
        pcs.clear(); ksps.clear(); mats.clear(); smats.clear(); slots.clear(); roots.clear();
    }
    void round(uint64_t seed, bool faults) {
        Rng r(seed);
        dead = false;
        { Sut q; list = newBlastedDataList(); }
        int nroots = r.chance(0.25) ? 2 : 1;
        for (int i = 0; i < nroots; i++) {
            size_t from = slots.size();
            KSP k = tree(r, (int)get(p, "depth", 3));
            bool wrong = false;
            if (r.chance(0.06)) {        // what the plugin cannot handle
                if (slots.size() > from && r.chance(0.5)) {
                    SimMat &m = sm(slots[from + r.below(slots.size() - from)].A);
                    m.type = r.chance(0.5) ? MATMPIAIJ : MATMPIBAIJ;
                    wrong = true;
                } else if (!strcmp(k->pc->type, PCBJACOBI) || !strcmp(k->pc->type, PCASM)) {
                    k->pc->nlocal = 2;
                    k->pc->sub.push_back(k->pc->sub[0]);
                    wrong = true;
                }
            }
            if (!stack(k, r, faults, wrong)) { destroy(); return; }
        }
        if (list.size != (int)slots.size()) bad("list", "%zu preconditioners of the solver are the plugin's, the list has %d", slots.size(), list.size);
        for (auto &s : slots) {
            PC pc = s.ksp->pc;
            if (!pc->setup || !pc->apply || !pc->destroy || !pc->ctx) bad("not-set", "a shell preconditioner of the solver was not set");
            for (auto &q : slots)
                if (&q != &s && q.ksp->pc->ctx == pc->ctx) bad("shared", "two preconditioners of the solver share their data");
            choose_options(s, r);
        }
        int nops = (int)get(p, "nops", 5);
        for (int k = 0; k < nops && !slots.empty() && !dead; k++) {
            Rng ro(sim::mix(seed, 1000 + k));
            Slot &s = slots[ro.below(slots.size())];
            switch (ro.below(8)) {
            case 0: case 1: {       // new values in place
                if (!s.usable) break;
                model::GenOpt go;
                go.seed = sim::mix(seed, 77 + k);
                go.kind = K_GENERAL;
                go.dom = (int)get(p, "dom", 80);
                go.gexp = (int)get(p, "gexp");
                go.rexp = (int)get(p, "rexp");
                gen_values(sys[s.mi], go);
                hs[s.mi]->set_values(sys[s.mi].v);
                for (auto &q : slots) if (q.mi == s.mi) q.fresh = false;
                break;
            }
            case 2: {               // the matrix is assembled anew, elsewhere in memory
                if (!s.usable || !get(p, "moves", 1)) break;
                // ... some of its arrays, or all of them
                Held nh(sys[s.mi], (int)get(p, "align", 64)), &h = *hs[s.mi];
                int which = ro.chance(0.4) ? 15 : ro.range(1, 15);
                if (which & 1) std::swap(h.rp, nh.rp);
                if (which & 2) std::swap(h.ci, nh.ci);
                if (which & 4) std::swap(h.v, nh.v);
                if (which & 8) std::swap(h.di, nh.di);
                for (auto &m : smats)
                    if (m->h == &h) { auto *bd = &m->bd; bd->i = h.rp; bd->j = h.ci; bd->a = h.v; if (which & 8) bd->diag = nullptr; }
                for (auto &q : slots) if (q.mi == s.mi) q.fresh = false;
                break;
            }
            case 3: setup(s, ro, faults); break;
            case 4: totals(); break;
            default: use(s, ro, faults);
            }
        }
        for (auto &s : slots) {
            Rng ro(sim::mix(seed, 99));
            if (!dead) use(s, ro, false);
        }
        if (dead) { destroy(); return; }
        totals();
        if (fac) {
            int n = 0;
            for (auto &s : slots) n += !s.first;
            if (T->created < n) bad("factory", "%d preconditioners were made by the application's factory, %d are in use", T->created, n);
        }
        destroy();
    }
};

Params gen_p19(Rng &r, int) {
    Params p;
    SysOpt o;
    o.units = true;
    o.symmetric = true;
    o.max1 = 8;
    o.max4 = 3;
    gen_sys_params(p, r, o);
    p["rm"] = get(p, "bs", 1) == 1;
    gen_run_params(p, r, 1);
    if (p["nthreads"] > 4) p["nthreads"] = 4;
    p["lag"] = r.range(0, 1);
    p["hseed"] = (int64_t)(r.next() >> 34);
    p["nops"] = r.range(2, 12);
    p["depth"] = r.range(0, 3);
    p["ext"] = r.chance(0.4);
    p["faults"] = r.chance(0.4);
    p["ofault"] = r.chance(0.1);
    p["oddbs"] = r.chance(0.1);
    p["slow"] = r.chance(0.5);
    p["step"] = r.chance(0.1);
    p["rounds"] = r.chance(0.3) ? 2 : 1;
    return p;
}
void body_p19(const Params &p) {
    if (!newBlastedDataList || !setup_blasted_stack || !computeTotalTimes || !destroyBlastedDataList) bad("harness-petsc", "the PETSc plugin was not built");
    if (!blasted::setup_blasted_stack_ext) bad("missing", "the entry point for an application's own factory is not defined");
    PSim simp;
    simp.opt_faults = get(p, "ofault");
    Tally tal;
    P = &simp;
    T = &tal;
    tal.seed = (uint64_t)get(p, "hseed");
    App a(p);
    a.lost = sim::live_sut_allocs();
    a.sys.reserve(4);
    for (int i = 0; i < 2; i++) {
        Params q = p;
        q["mseed"] = get(p, "mseed") + 17 * i;
        q["nb"] = std::max<int64_t>(1, get(p, "nb") - i);
        a.sys.push_back(make_sys(q));
    }
    {
        model::GenOpt go;      // block sizes the plugin does not support
        go.nb = 2; go.bs = get(p, "hseed") % 2 ? 2 : 3; go.pat = P_FULL; go.rm = false; go.seed = 5;
        a.sys.push_back(gen(go));
    }
    for (auto &s : a.sys) a.hs.emplace_back(new Held(s, (int)get(p, "align", 64)));
    if (get(p, "ext")) {
        a.fac.reset(new TestFactory);
        tal.slow = get(p, "slow");
        tal.step = get(p, "step");
        a.clock_ok = !tal.step;
    }
    int rounds = (int)get(p, "rounds", 1);
    for (int i = 0; i < rounds; i++) {
        tal.created = 0;
        a.round(sim::mix((uint64_t)get(p, "hseed", 1), i), get(p, "faults"));
    }
    if (get(p, "faults")) a.round(sim::mix((uint64_t)get(p, "hseed", 1), 50), false);   // after all the faults
}
}
extern const Workload w_p19{"P19", gen_p19, body_p19, nullptr, true};
