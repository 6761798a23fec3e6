// P20: systems and options that come in through PETSc: files of any quality, failing PETSc calls, options of any kind.
#include "petsc_sim.h"
#include <cmath>
#include <memory>
#define Vec PVec
#include "utils/blasted_petsc_io.h"
#include "utils/cmdoptions.hpp"
#undef Vec
using namespace model;
using sim::NoSut;

extern "C" {
PetscErrorCode readVecFromFile(const char *const, MPI_Comm, Mat, PVec *const) __attribute__((weak));
PetscErrorCode readMatFromCOOFile(const char *const, MPI_Comm, Mat *const) __attribute__((weak));
PetscErrorCode readMatFromCOOFile_viaSR(const char *const, MPI_Comm, Mat *const) __attribute__((weak));
}
namespace blasted {
bool parsePetscCmd_isDefined(const std::string) __attribute__((weak));
int parsePetscCmd_int(const std::string) __attribute__((weak));
PetscReal parseOptionalPetscCmd_real(const std::string, const PetscReal) __attribute__((weak));
bool parsePetscCmd_bool(const std::string) __attribute__((weak));
std::string parsePetscCmd_string(const std::string, const size_t) __attribute__((weak));
std::vector<int> parsePetscCmd_intArray(const std::string, const int) __attribute__((weak));
std::vector<int> parseOptionalPetscCmd_intArray(const std::string, const int) __attribute__((weak));
}

// ---- the simulated PETSc's building of vectors and matrices
static Mat newmat() {
    Mat A = new _p_Mat;
    memset(A, 0, sizeof *A);
    A->sim = new SimMat;
    A->sim->b = new PBuild;
    P->mats.insert(A);
    return A;
}
static void delmat(Mat A) {
    P->mats.erase(A);
    delete A->sim->b;
    delete A->sim;
    delete A;
}
static void delvec(PVec v) { P->vecs.erase(v); delete v; }
static PBuild *bld(Mat A) {
    if (!A || !P->mats.count(A)) bad("bad-handle", "a PETSc call on a matrix that does not exist");
    return A->sim->b;
}
static PVec chk(PVec v) {
    if (!v || !P->vecs.count(v)) bad("bad-handle", "a PETSc call on a vector that does not exist");
    return v;
}
static PetscErrorCode put(PBuild *b, int i, int j, double x, InsertMode m) {
    if (i < 0 || j < 0) return 0;
    if (i >= b->M || j >= b->N) return PETSC_ERR_ARG_OUTOFRANGE;
    double &d = b->v[{i, j}];
    d = m == ADD_VALUES ? d + x : x;
    return 0;
}
extern "C" {
PetscErrorCode VecCreate(MPI_Comm, PVec *v) { FAULT(); NoSut ns; *v = new _p_Vec(-1); P->vecs.insert(*v); return 0; }
PetscErrorCode VecSetType(PVec v, VecType) { FAULT(); chk(v); return 0; }
PetscErrorCode VecSetFromOptions(PVec v) { FAULT(); chk(v); return 0; }
PetscErrorCode VecSetSizes(PVec v, PetscInt n, PetscInt N) {
    FAULT();
    NoSut ns;
    if (n < 0 && N < 0) return PETSC_ERR_ARG_INCOMP;
    if (n >= 0 && N >= 0 && n != N) return PETSC_ERR_ARG_INCOMP;
    chk(v)->resize(n >= 0 ? n : N);
    return 0;
}
PetscErrorCode VecSetUp(PVec v) { FAULT(); return chk(v)->n < 0 ? PETSC_ERR_ARG_WRONGSTATE : 0; }
PetscErrorCode VecCreateSeq(MPI_Comm c, PetscInt n, PVec *v) { PetscErrorCode e = VecCreate(c, v); return e ? e : VecSetSizes(*v, n, n); }
PetscErrorCode VecCreateMPI(MPI_Comm c, PetscInt n, PetscInt N, PVec *v) { PetscErrorCode e = VecCreate(c, v); return e ? e : VecSetSizes(*v, n, N); }
PetscErrorCode VecSetValues(PVec v, PetscInt n, const PetscInt *ix, const PetscScalar *y, InsertMode m) {
    FAULT();
    NoSut ns;
    chk(v);
    if (v->n < 0) return PETSC_ERR_ORDER;
    for (int k = 0; k < n; k++) {
        if (ix[k] < 0) continue;
        if (ix[k] >= v->n) bad("out-of-bounds", "value %d is inserted into a vector of length %d", ix[k], v->n);   // unchecked in optimised PETSc
        v->d[ix[k]] = m == ADD_VALUES ? v->d[ix[k]] + y[k] : y[k];
    }
    v->assembled = false;
    return 0;
}
PetscErrorCode VecSetValue(PVec v, PetscInt i, PetscScalar x, InsertMode m) { return VecSetValues(v, 1, &i, &x, m); }
PetscErrorCode VecAssemblyBegin(PVec v) { FAULT(); chk(v)->begun = true; return 0; }
PetscErrorCode VecAssemblyEnd(PVec v) { FAULT(); if (!chk(v)->begun) return PETSC_ERR_ARG_WRONGSTATE; v->begun = false; v->assembled = true; return 0; }
PetscErrorCode VecDuplicate(PVec v, PVec *w) { FAULT(); NoSut ns; *w = new _p_Vec(chk(v)->n); P->vecs.insert(*w); return 0; }
PetscErrorCode VecDestroy(PVec *v) { NoSut ns; if (*v) delvec(chk(*v)); *v = nullptr; return 0; }

PetscErrorCode MatCreate(MPI_Comm, Mat *A) { FAULT(); NoSut ns; *A = newmat(); return 0; }
PetscErrorCode MatDestroy(Mat *A) { NoSut ns; if (*A) { bld(*A); delmat(*A); } *A = nullptr; return 0; }
PetscErrorCode MatSetType(Mat A, MatType t) { FAULT(); NoSut ns; bld(A)->type = t; return 0; }
PetscErrorCode MatSetFromOptions(Mat A) {
    FAULT();
    NoSut ns;
    PBuild *b = bld(A);
    auto t = P->opts.find("-mat_type"), s = P->opts.find("-mat_block_size");
    b->type = t == P->opts.end() ? "aij" : t->second;
    if (s != P->opts.end()) b->bs = atoi(s->second.c_str());
    return 0;
}
PetscErrorCode MatSetBlockSize(Mat A, PetscInt s) {
    FAULT();
    PBuild *b = bld(A);
    if (b->setup && b->bs != s) return PETSC_ERR_ARG_INCOMP;
    b->bs = s;
    return 0;
}
PetscErrorCode MatSetSizes(Mat A, PetscInt m, PetscInt n, PetscInt M, PetscInt N) {
    FAULT();
    PBuild *b = bld(A);
    if ((m < 0 && M < 0) || (n < 0 && N < 0) || (m >= 0 && M >= 0 && m != M) || (n >= 0 && N >= 0 && n != N)) return PETSC_ERR_ARG_INCOMP;
    b->M = m >= 0 ? m : M;
    b->N = n >= 0 ? n : N;
    return 0;
}
PetscErrorCode MatSetUp(Mat A) {
    FAULT();
    PBuild *b = bld(A);
    if (b->M < 0) return PETSC_ERR_ARG_WRONGSTATE;
    int s = std::max(1, b->bs);
    if (b->M % s || b->N % s) return PETSC_ERR_ARG_SIZ;
    b->bs = s;
    b->setup = true;
    return 0;
}
PetscErrorCode MatSeqAIJSetPreallocation(Mat A, PetscInt, const PetscInt *) { return MatSetUp(A); }
PetscErrorCode MatMPIAIJSetPreallocation(Mat A, PetscInt, const PetscInt *, PetscInt, const PetscInt *) { return MatSetUp(A); }
PetscErrorCode MatSeqBAIJSetPreallocation(Mat A, PetscInt s, PetscInt, const PetscInt *) { if (bld(A)->bs < 0) bld(A)->bs = s; return MatSetUp(A); }
PetscErrorCode MatMPIBAIJSetPreallocation(Mat A, PetscInt s, PetscInt, const PetscInt *, PetscInt, const PetscInt *) { if (bld(A)->bs < 0) bld(A)->bs = s; return MatSetUp(A); }
PetscErrorCode MatXAIJSetPreallocation(Mat A, PetscInt s, const PetscInt *, const PetscInt *, const PetscInt *, const PetscInt *) { if (bld(A)->bs < 0) bld(A)->bs = s; return MatSetUp(A); }
PetscErrorCode MatSetOption(Mat A, MatOption o, PetscBool f) {
    FAULT();
    PBuild *b = bld(A);
    if (o == MAT_ROW_ORIENTED) b->roworiented = f;
    return 0;
}
PetscErrorCode MatSetValues(Mat A, PetscInt m, const PetscInt *r, PetscInt n, const PetscInt *c, const PetscScalar *y, InsertMode mode) {
    FAULT();
    NoSut ns;
    PBuild *b = bld(A);
    if (!b->setup) return PETSC_ERR_ORDER;
    b->assembled = false;
    for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++)
            if (PetscErrorCode e = put(b, r[i], c[j], y[b->roworiented ? i * n + j : i + j * m], mode)) return e;
    return 0;
}
PetscErrorCode MatSetValue(Mat A, PetscInt i, PetscInt j, PetscScalar x, InsertMode m) { return MatSetValues(A, 1, &i, 1, &j, &x, m); }
PetscErrorCode MatSetValuesBlocked(Mat A, PetscInt m, const PetscInt *r, PetscInt n, const PetscInt *c, const PetscScalar *y, InsertMode mode) {
    FAULT();
    NoSut ns;
    PBuild *b = bld(A);
    if (!b->setup) return PETSC_ERR_ORDER;
    b->assembled = false;
    int s = b->bs;
    for (int i = 0; i < m * s; i++)
        for (int j = 0; j < n * s; j++)
            if (PetscErrorCode e = put(b, r[i / s] * s + i % s, c[j / s] * s + j % s, y[b->roworiented ? (size_t)i * n * s + j : i + (size_t)j * m * s], mode)) return e;
    return 0;
}
PetscErrorCode MatAssemblyBegin(Mat A, MatAssemblyType) { FAULT(); PBuild *b = bld(A); if (!b->setup) return PETSC_ERR_ORDER; b->begun = true; return 0; }
PetscErrorCode MatAssemblyEnd(Mat A, MatAssemblyType t) {
    FAULT();
    PBuild *b = bld(A);
    if (!b->begun) return PETSC_ERR_ARG_WRONGSTATE;
    b->begun = false;
    b->assembled = t == MAT_FINAL_ASSEMBLY;
    return 0;
}
PetscErrorCode MatCreateMPIAIJWithArrays(MPI_Comm, PetscInt m, PetscInt n, PetscInt M, PetscInt N, const PetscInt *rp, const PetscInt *ci, const PetscScalar *a, Mat *A) {
    FAULT();
    NoSut ns;
    if (rp && rp[0]) return PETSC_ERR_ARG_OUTOFRANGE;
    if ((m < 0 && M < 0) || (n < 0 && N < 0) || (m >= 0 && M >= 0 && m != M) || (n >= 0 && N >= 0 && n != N)) return PETSC_ERR_ARG_INCOMP;
    *A = newmat();
    PBuild *b = (*A)->sim->b;
    b->type = "aij";
    b->bs = 1;
    b->M = m >= 0 ? m : M;
    b->N = n >= 0 ? n : N;
    b->setup = b->assembled = true;
    for (int i = 0; i < b->M; i++)
        for (int k = rp[i]; k < rp[i + 1]; k++)
            if (PetscErrorCode e = put(b, i, ci[k], a[k], INSERT_VALUES)) return e;
    return 0;
}
PetscErrorCode MatCreateVecs(Mat A, PVec *right, PVec *left) {
    FAULT();
    NoSut ns;
    PBuild *b = bld(A);
    if (b->M < 0) return PETSC_ERR_ARG_WRONGSTATE;
    if (right) { *right = new _p_Vec(b->N); P->vecs.insert(*right); }
    if (left) { *left = new _p_Vec(b->M); P->vecs.insert(*left); }
    return 0;
}
}

namespace {
enum { O_VEC, O_MAT, O_SR, O_OPTS, NO };
Params gen_p20(Rng &r, int) {
    Params p;
    gen_mm(p, r);
    p["op"] = (int)r.below(NO);
    static const int bss[] = {0, 1, 1, 2, 3, 4, 5, 7};
    p["bs"] = bss[r.below(8)];
    p["odd"] = r.chance(0.08);          // the file does not fit the block size or the matrix
    p["given"] = r.chance(0.6);         // a matrix is given with the vector
    p["baij"] = r.chance(0.5);
    p["hseed"] = (int64_t)(r.next() >> 34);
    p["nops"] = r.range(1, 8);
    int f = (int)r.below(4);            // which faults there are besides those of the file
    p["inject"] = f == 1 ? r.chance(0.5) ? (int)r.below(8) : (int)r.below(60) : -1;
    p["alloc"] = f == 2 ? (int)r.below(60) : -1;
    if (f == 1 || f == 2 || r.chance(0.3)) { p["trunc"] = -1; p["ncorr"] = p["sem"] = p["ofail"] = p["head"] = p["crlf"] = 0; p["fmode"] = (int)r.below(3); }
    return p;
}
struct Clean {      // whatever happens, no simulated object outlives the run
    ~Clean() {
        while (!P->mats.empty()) delmat(*P->mats.begin());
        while (!P->vecs.empty()) delvec(*P->vecs.begin());
    }
};
enum Res { OK, ERR, EXC };
template <class F> Res call(std::string &what, F f) {
    int e = 0;
    try {
        Sut s;
        e = f();
    } catch (const std::exception &x) { what = x.what(); return EXC; }
    catch (const char *x) { what = x; return EXC; }
    catch (...) { what = "an exception"; return EXC; }
    what = "error code " + std::to_string(e);
    return e ? ERR : OK;
}
void files(const Params &p) {
    int op = (int)get(p, "op"), bs = std::max(1, (int)get(p, "bs"));
    bool odd = get(p, "odd"), given = get(p, "given");
    if (get(p, "bs")) P->opts["-mat_block_size"] = std::to_string(get(p, "bs"));
    if (get(p, "baij")) P->opts["-mat_type"] = "baij";
    const std::string name = "/simfs/in.mtx";
    bool arr = op == O_VEC;
    int n = arr ? 0 : odd && bs > 1 ? (int)get(p, "nb") * bs + 1 + (int)get(p, "hseed") % (bs - 1) : 0;
    int dims[2];
    bool intact = mm_put(p, name, bs, arr, bs == 1, n, dims);
    if (!arr && n) intact = false;
    Mat A = nullptr;
    PVec v = nullptr;
    Rng r(get(p, "hseed"));
    int fit = -1;
    if (arr && given) {
        NoSut ns;
        A = newmat();
        int len = dims[0] * dims[1];
        if (odd) len += r.chance(0.5) ? 1 + (int)r.below(3) : -1 - (int)r.below(std::min(3, len));
        PBuild *b = A->sim->b;
        b->M = fit = std::max(0, len);
        b->N = fit + (int)r.below(3);
        b->setup = b->assembled = true;
    }
    Mat given_A = A;
    if (odd && arr && given) intact = false;
    P->inject_at = (int)get(p, "inject");
    P->calls = 0;
    sim::abort_is_failstop = !intact || get(p, "alloc") >= 0;     // the readers stop the program at some errors
    if (get(p, "alloc") >= 0) sim::set_alloc_fail((int)get(p, "alloc"));
    std::string what;
    static const char *names[] = {"readVecFromFile", "readMatFromCOOFile", "readMatFromCOOFile_viaSR"};
    Res q = call(what, [&] {
        if (op == O_VEC) return readVecFromFile(name.c_str(), PETSC_COMM_SELF, A, &v);
        if (op == O_MAT) return readMatFromCOOFile(name.c_str(), PETSC_COMM_SELF, &A);
        return readMatFromCOOFile_viaSR(name.c_str(), PETSC_COMM_SELF, &A);
    });
    bool afired = get(p, "alloc") >= 0 && sim::alloc_fired();
    sim::set_alloc_fail(-1);
    P->inject_at = -1;
    sim::abort_is_failstop = false;
    if (q == OK && P->fired) bad("error-hidden", "%s returned success although %s failed", names[op], P->fired_in.c_str());
    if (q != OK && intact && !P->fired && !afired) bad("refused", "%s: a correct file was refused: %s", names[op], what.c_str());
    if (sim::live_sut_allocs()) bad("leak", "%s: memory is never released: %s", names[op], sim::describe_live().c_str());
    if (q != OK) return;
    std::string got = sim::simfs_delivered(name);
    MM x = mm_strict(got, arr);
    if (intact && x.st != MM::VALID) bad("harness", "the generated file is not valid: %s", x.why.c_str());
    if (x.st == MM::ANY) { sim::set_trivial(); return; }
    if (x.st == MM::INVALID) bad("garbage-accepted", "%s: a file that is not a complete valid matrix (%s) was read without an error", names[op], x.why.c_str());
    if (arr) {
        size_t cnt = (size_t)x.rows * x.cols;
        if (fit >= 0 && (size_t)fit != cnt) bad("wrong-size", "%zu values were read for a matrix with %d rows without an error", cnt, fit);
        if (!v || !P->vecs.count(v)) bad("no-result", "no vector was returned");
        if (P->vecs.size() != 1 || P->mats.size() != (given_A ? 1 : 0)) bad("petsc-leak", "other PETSc objects than the result are left behind");
        if (!v->assembled) bad("not-assembled", "the vector is not assembled");
        if (v->n != (int)cnt) bad("wrong-vector", "the vector has length %d, the file has %zu values", v->n, cnt);
        for (size_t k = 0; k < cnt; k++)
            if (v->d[k] != strtod(x.val[k].c_str(), nullptr)) bad("wrong-vector", "value %zu is %.17g, the file has %s", k, v->d[k], x.val[k].c_str());
        return;
    }
    if (!A || !P->mats.count(A)) bad("no-result", "no matrix was returned");
    if (P->mats.size() != 1 || P->vecs.size()) bad("petsc-leak", "%s: other PETSc objects than the result are left behind", names[op]);
    PBuild *b = A->sim->b;
    if (!b->assembled || b->begun) bad("not-assembled", "%s: the matrix is not assembled", names[op]);
    if (b->M != x.rows || b->N != x.cols) bad("wrong-matrix", "%s: the matrix is %d x %d, that of the file %d x %d", names[op], b->M, b->N, x.rows, x.cols);
    if (odd && bs > 1 && x.rows % b->bs) bad("wrong-matrix", "%s: %d rows with block size %d", names[op], x.rows, b->bs);
    if (get(p, "bs") && (op == O_MAT || bs == 3 || bs == 4 || bs == 7)) {      // the other reader documents that it knows only these
        if (b->bs != bs) bad("wrong-matrix", "%s: the matrix has block size %d, asked for was %d", names[op], b->bs, bs);
        if (get(p, "baij") && b->type != "baij") bad("wrong-matrix", "%s: the matrix type is %s, asked for was baij", names[op], b->type.c_str());
    }
    std::map<std::pair<int, int>, double> ref;
    for (size_t k = 0; k < x.val.size(); k++) ref[{x.ri[k], x.ci[k]}] = strtod(x.val[k].c_str(), nullptr);
    for (auto &e : ref) {
        auto f = b->v.find(e.first);
        if (f == b->v.end() ? e.second != 0 : f->second != e.second)
            bad("wrong-matrix", "%s: entry (%d,%d) is %.17g, the file has %.17g", names[op], e.first.first, e.first.second, f == b->v.end() ? 0.0 : f->second, e.second);
    }
    for (auto &e : b->v)
        if (e.second != 0 && !ref.count(e.first)) bad("wrong-matrix", "%s: there is an entry (%d,%d) that the file does not have", names[op], e.first.first, e.first.second);
}
void options(const Params &p) {
    Rng r(get(p, "hseed"));
    for (int k = 0; k < (int)get(p, "nops", 1); k++) {
        Rng ro(sim::mix(get(p, "hseed"), 100 + k));
        const std::string nm = std::string("-some_option_") + std::string(ro.below(12), 'x') + std::to_string(ro.below(3));
        bool set = ro.chance(0.7);
        int kind = (int)ro.below(7);
        std::string val;
        int iv = ro.range(-1000, 1000), maxlen = ro.range(1, 6);
        double dv = iv / 8.0, def = ro.range(-9, 9);
        bool bv = ro.chance(0.5);
        size_t len = 1 + ro.below(40);
        std::vector<int> av;
        switch (kind) {
        case 0: val = ro.chance(0.5) ? "" : "anything"; break;
        case 1: val = std::to_string(iv); break;
        case 2: val = std::to_string(dv); break;
        case 3: val = bv ? (ro.chance(0.5) ? "true" : "1") : (ro.chance(0.5) ? "false" : "0"); break;
        case 4: for (size_t n = ro.chance(0.3) ? len : ro.below(len + 1); n > 0; n--) val += (char)('a' + ro.below(26)); break;
        default: for (int n = ro.range(1, 8); n > 0; n--) { av.push_back(ro.range(-99, 99)); val += (val.empty() ? "" : ",") + std::to_string(av.back()); }
        }
        P->opts.clear();
        if (set) P->opts[nm] = val;
        if (ro.chance(0.3)) P->opts[nm + "z"] = "7";
        bool inj = get(p, "inject") >= 0 && ro.chance(0.3), al = get(p, "alloc") >= 0 && ro.chance(0.3);
        P->fired = false;
        P->calls = 0;
        P->inject_at = inj ? 0 : -1;
        bool isdef = false, b = false, threw = false, missing = false;
        int i = 0;
        double d = 0;
        std::string s;
        std::vector<int> a;
        static const char *names[] = {"parsePetscCmd_isDefined", "parsePetscCmd_int", "parseOptionalPetscCmd_real", "parsePetscCmd_bool", "parsePetscCmd_string", "parsePetscCmd_intArray", "parseOptionalPetscCmd_intArray"};
        bool afired = false;
        std::string what;
        try {
            if (al) sim::set_alloc_fail((int)ro.below(5));
            Sut in;
            switch (kind) {
            case 0: isdef = blasted::parsePetscCmd_isDefined(nm); break;
            case 1: i = blasted::parsePetscCmd_int(nm); break;
            case 2: d = blasted::parseOptionalPetscCmd_real(nm, def); break;
            case 3: b = blasted::parsePetscCmd_bool(nm); break;
            case 4: s = blasted::parsePetscCmd_string(nm, len); break;
            case 5: a = blasted::parsePetscCmd_intArray(nm, maxlen); break;
            default: a = blasted::parseOptionalPetscCmd_intArray(nm, maxlen);
            }
        } catch (const blasted::InputNotGivenError &e) { missing = threw = true; }
        catch (const std::exception &e) { threw = true; what = e.what(); }
        afired = al && sim::alloc_fired();
        sim::set_alloc_fail(-1);
        P->inject_at = -1;
        sim::abort_is_failstop = false;
        if (P->fired && !threw) bad("error-hidden", "%s gave a value although %s failed", names[kind], P->fired_in.c_str());
        if (!P->fired && !afired) {
            bool opt = kind == 0 || kind == 2 || kind == 6;
            if (threw && (set || opt)) bad("refused", "%s threw although %s", names[kind], set ? "the option is set" : "the option is optional");
            if (!set && !opt && !missing) bad("garbage-accepted", "%s did not report that the option is missing", names[kind]);
            if (!threw) {
                if (kind >= 5 && (int)av.size() > maxlen) av.resize(maxlen);
                if (!set) av.clear();
                bool ok = kind == 0 ? isdef == set : kind == 1 ? i == iv : kind == 2 ? d == (set ? dv : def) : kind == 3 ? b == bv : kind == 4 ? s == val : a == av;
                if (!ok) bad("wrong-value", "%s: option '%s' has value '%s'%s, something else was returned", names[kind], nm.c_str(), val.c_str(), set ? "" : " (not set)");
            }
        }
        { Sut in; std::string().swap(s); std::vector<int>().swap(a); }
        if (sim::live_sut_allocs()) bad("leak", "%s: memory is never released: %s", names[kind], sim::describe_live().c_str());
    }
}
void body_p20(const Params &p) {
    PSim simp;
    P = &simp;
    simp.opt_faults = true;
    if (get(p, "op") == O_OPTS) {
        if (!blasted::parsePetscCmd_isDefined || !blasted::parsePetscCmd_int || !blasted::parseOptionalPetscCmd_real || !blasted::parsePetscCmd_bool || !blasted::parsePetscCmd_string ||
            !blasted::parsePetscCmd_intArray || !blasted::parseOptionalPetscCmd_intArray)
            bad("harness-petsc", "the PETSc utilities were not built");
        options(p);
        return;
    }
    if (!readVecFromFile || !readMatFromCOOFile || !readMatFromCOOFile_viaSR) bad("harness-petsc", "the PETSc utilities were not built");
    Clean c;
    files(p);
}
}
extern const Workload w_p20{"P20", gen_p20, body_p20, nullptr, true};
