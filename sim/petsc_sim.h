// The simulated PETSc's objects (see petsc/include), shared by the workloads that need them.
#pragma once
#include "wl.h"
#include <map>
#include <set>
#define Vec PVec            // PETSc's vectors; Vec is the model's
#include <petscksp.h>
#include <../src/mat/impls/aij/mpi/mpiaij.h>
#include <../src/mat/impls/baij/mpi/mpibaij.h>
#undef Vec
using model::Sys;
struct PBuild {              // a matrix under construction by PETSc calls
    std::string type;
    int bs = -1, M = -1, N = -1;
    bool setup = false, roworiented = true, begun = false, assembled = false;
    std::map<std::pair<int, int>, double> v;
};
struct SimMat {
    const Sys *s = nullptr;
    const Held *h = nullptr;
    const char *type = MATSEQAIJ;
    int bs = 1, missing = -1;
    bool block = false;
    PBuild *b = nullptr;
    Mat_SeqBAIJ bd;     // the part in front is that of Mat_SeqAIJ
    void attach(const Sys &sys, const Held &held) {
        s = &sys; h = &held;
        memset(&bd, 0, sizeof bd);
        bd.i = held.rp; bd.j = held.ci; bd.a = held.v;
        bd.nz = s->nnzb(); bd.maxnz = bd.nz;
        bd.bs2 = s->bs * s->bs; bd.mbs = bd.nbs = s->nb;
        bd.roworiented = PETSC_FALSE;
    }
};
struct _p_Vec {
    double *d;
    int n, rd, wr;
    bool begun = false, assembled = true;
    std::vector<double> own;
    _p_Vec(double *dd, int nn, int, int) : d(dd), n(nn), rd(0), wr(0) {}
    explicit _p_Vec(int nn) : d(nullptr), n(nn), rd(0), wr(0), assembled(false) { if (n >= 0) resize(n); }
    void resize(int nn) { n = nn; own.assign(nn, 0.0); d = own.data(); }
};
struct _p_PC {
    const char *type = PCSHELL;
    Mat A = nullptr, P = nullptr;
    bool isset = false;
    int nlocal = 1;
    std::vector<KSP> sub;       // bjacobi/asm/ksp: [0]; mg: levels, coarsest first
    // shell
    void *ctx = nullptr;
    PetscErrorCode (*setup)(PC) = nullptr;
    PetscErrorCode (*apply)(PC, PVec, PVec) = nullptr;
    PetscErrorCode (*destroy)(PC) = nullptr;
    PetscErrorCode (*rich)(PC, PVec, PVec, PVec, PetscReal, PetscReal, PetscReal, PetscInt, PetscBool, PetscInt *, PCRichardsonConvergedReason *) = nullptr;
    std::string name;
};
struct _p_KSP {
    PC pc;
    Mat A = nullptr, P = nullptr;
    bool isset = false;
};
struct PSim {
    std::map<std::string, std::string> opts;
    int inject_at = -1, calls = 0;
    bool fired = false, opt_faults = false;
    std::string fired_in;
    std::set<Mat> mats;          // made by PETSc calls and not destroyed
    std::set<PVec> vecs;
};
extern PSim *P;
bool petsc_fault(const char *fn);
#define FAULT() do { if (petsc_fault(__func__)) return PETSC_ERR_LIB; } while (0)
inline SimMat &sm(Mat A) { return *A->sim; }
