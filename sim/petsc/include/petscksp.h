/* The part of PETSc's interface (version 3.8 to 3.16) that a PCSHELL plugin works with, for the simulated PETSc of
 * wl_petsc.cpp: the objects, the options database and the communicator are the simulator's. */
#ifndef SIM_PETSCKSP_H
#define SIM_PETSCKSP_H
#include <assert.h>
#include <math.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
#define PETSC_VERSION_MAJOR 3
#define PETSC_VERSION_MINOR 14
#define PETSC_VERSION_SUBMINOR 0
#define PETSC_VERSION_LT(a, b, c) (3 < (a) || (3 == (a) && 14 < (b)))
#define PETSC_VERSION_LE(a, b, c) (3 < (a) || (3 == (a) && 14 <= (b)))
#define PETSC_VERSION_GT(a, b, c) (!PETSC_VERSION_LE(a, b, c))
#define PETSC_VERSION_GE(a, b, c) (!PETSC_VERSION_LT(a, b, c))
#define PETSC_EXTERN extern
#define PETSC_USE_REAL_DOUBLE 1
typedef int PetscErrorCode;
typedef int PetscInt;
typedef int PetscMPIInt;
typedef int PetscBLASInt;
typedef long long PetscInt64;
typedef double PetscReal;
typedef double PetscScalar;
typedef double PetscLogDouble;
typedef enum { PETSC_FALSE, PETSC_TRUE } PetscBool;
typedef int MPI_Comm;
#define MPI_COMM_NULL 0
#define MPI_COMM_SELF 1
#define MPI_COMM_WORLD 2
#define PETSC_COMM_SELF MPI_COMM_SELF
#define PETSC_COMM_WORLD MPI_COMM_WORLD
#define MPI_SUCCESS 0
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Barrier(MPI_Comm);
double MPI_Wtime(void);
#define PETSC_NULL NULL
#define PETSC_DEFAULT -2
#define PETSC_DECIDE -1
#define PETSC_IGNORE NULL
#define PETSC_SMALL 1.e-10
#define PETSC_MACHINE_EPSILON 2.2204460492503131e-16

#define PETSC_ERR_MIN_VALUE 54
#define PETSC_ERR_MEM 55
#define PETSC_ERR_SUP 56
#define PETSC_ERR_ORDER 58
#define PETSC_ERR_ARG_SIZ 60
#define PETSC_ERR_ARG_IDN 61
#define PETSC_ERR_ARG_WRONG 62
#define PETSC_ERR_ARG_OUTOFRANGE 63
#define PETSC_ERR_ARG_CORRUPT 64
#define PETSC_ERR_ARG_BADPTR 68
#define PETSC_ERR_ARG_NOTSAMETYPE 69
#define PETSC_ERR_ARG_WRONGSTATE 73
#define PETSC_ERR_ARG_INCOMP 75
#define PETSC_ERR_LIB 76
#define PETSC_ERR_PLIB 77
#define PETSC_ERR_ARG_NULL 85
#define PETSC_ERR_ARG_UNKNOWN_TYPE 86
#define PETSC_ERR_USER 83
#define PETSC_ERR_FILE_OPEN 65
#define PETSC_ERR_FILE_READ 66
#define PETSC_ERR_FILE_WRITE 67
#define PETSC_ERR_FILE_UNEXPECTED 79
#define PETSC_ERR_FP 72
#define PETSC_ERR_MAT_LU_ZRPVT 71
#define PETSC_ERR_MAX_VALUE 98
typedef enum { PETSC_ERROR_INITIAL = 0, PETSC_ERROR_REPEAT = 1 } PetscErrorType;
PetscErrorCode PetscError(MPI_Comm, int, const char *, const char *, PetscErrorCode, PetscErrorType, const char *, ...);
#define SETERRQ(c, e, s) return PetscError(c, __LINE__, __func__, __FILE__, e, PETSC_ERROR_INITIAL, s)
#define SETERRQ1(c, e, s, a1) return PetscError(c, __LINE__, __func__, __FILE__, e, PETSC_ERROR_INITIAL, s, a1)
#define SETERRQ2(c, e, s, a1, a2) return PetscError(c, __LINE__, __func__, __FILE__, e, PETSC_ERROR_INITIAL, s, a1, a2)
#define SETERRQ3(c, e, s, a1, a2, a3) return PetscError(c, __LINE__, __func__, __FILE__, e, PETSC_ERROR_INITIAL, s, a1, a2, a3)
#define SETERRQ4(c, e, s, a1, a2, a3, a4) return PetscError(c, __LINE__, __func__, __FILE__, e, PETSC_ERROR_INITIAL, s, a1, a2, a3, a4)
#define CHKERRQ(e) do { PetscErrorCode sim_e_ = (e); if (sim_e_) return PetscError(PETSC_COMM_SELF, __LINE__, __func__, __FILE__, sim_e_, PETSC_ERROR_REPEAT, " "); } while (0)
#define CHKERRV(e) do { if (e) return; } while (0)
#define CHKERRABORT(c, e) do { if (e) abort(); } while (0)
#define PetscFunctionBegin
#define PetscFunctionBeginUser
#define PetscFunctionReturn(x) return (x)
#define PetscMax(a, b) ((a) < (b) ? (b) : (a))
#define PetscMin(a, b) ((a) < (b) ? (a) : (b))
#define PetscAbsScalar(a) fabs(a)
#define PetscAbsReal(a) fabs(a)

typedef struct _p_PetscObject *PetscObject;
typedef struct _p_PetscOptions *PetscOptions;
typedef struct _p_Vec *Vec;
typedef struct _p_Mat *Mat;
typedef struct _p_PC *PC;
typedef struct _p_KSP *KSP;
typedef const char *MatType;
typedef const char *PCType;
typedef const char *KSPType;
typedef const char *VecType;
#define MATAIJ "aij"
#define MATSEQAIJ "seqaij"
#define MATMPIAIJ "mpiaij"
#define MATAIJMKL "aijmkl"
#define MATSEQAIJMKL "seqaijmkl"
#define MATMPIAIJMKL "mpiaijmkl"
#define MATBAIJ "baij"
#define MATSEQBAIJ "seqbaij"
#define MATMPIBAIJ "mpibaij"
#define MATBAIJMKL "baijmkl"
#define MATSEQBAIJMKL "seqbaijmkl"
#define MATMPIBAIJMKL "mpibaijmkl"
#define MATDENSE "dense"
#define PCNONE "none"
#define PCJACOBI "jacobi"
#define PCSOR "sor"
#define PCLU "lu"
#define PCILU "ilu"
#define PCSHELL "shell"
#define PCBJACOBI "bjacobi"
#define PCASM "asm"
#define PCGASM "gasm"
#define PCMG "mg"
#define PCGAMG "gamg"
#define PCHYPRE "hypre"
#define PCKSP "ksp"
#define PCCOMPOSITE "composite"
#define PCFIELDSPLIT "fieldsplit"
#define KSPRICHARDSON "richardson"
#define KSPPREONLY "preonly"
#define KSPGMRES "gmres"
typedef enum { PCRICHARDSON_CONVERGED_RTOL = 2, PCRICHARDSON_CONVERGED_ATOL = 3, PCRICHARDSON_CONVERGED_ITS = 4, PCRICHARDSON_DIVERGED_DTOL = -4 } PCRichardsonConvergedReason;
typedef enum { NOT_SET_VALUES, INSERT_VALUES, ADD_VALUES } InsertMode;
typedef enum { MAT_FLUSH_ASSEMBLY = 1, MAT_FINAL_ASSEMBLY = 0 } MatAssemblyType;
typedef enum { MAT_ROW_ORIENTED, MAT_NEW_NONZERO_LOCATIONS, MAT_NEW_NONZERO_ALLOCATION_ERR, MAT_SYMMETRIC, MAT_STRUCTURALLY_SYMMETRIC, MAT_KEEP_NONZERO_PATTERN } MatOption;
typedef enum { MAT_INITIAL_MATRIX, MAT_REUSE_MATRIX } MatReuse;
typedef enum { PC_LEFT, PC_RIGHT, PC_SYMMETRIC } PCSide;

PetscErrorCode PetscPrintf(MPI_Comm, const char *, ...);
PetscErrorCode PetscTime(PetscLogDouble *);
PetscErrorCode PetscGetCPUTime(PetscLogDouble *);
PetscErrorCode PetscStrcmp(const char *, const char *, PetscBool *);
PetscErrorCode PetscStrncpy(char *, const char *, size_t);
PetscErrorCode PetscErrorMessage(int, const char **, char **);
PetscErrorCode PetscObjectTypeCompare(PetscObject, const char *, PetscBool *);
PetscErrorCode PetscObjectGetComm(PetscObject, MPI_Comm *);
PetscErrorCode PetscOptionsHasName(PetscOptions, const char *, const char *, PetscBool *);
PetscErrorCode PetscOptionsGetInt(PetscOptions, const char *, const char *, PetscInt *, PetscBool *);
PetscErrorCode PetscOptionsGetReal(PetscOptions, const char *, const char *, PetscReal *, PetscBool *);
PetscErrorCode PetscOptionsGetBool(PetscOptions, const char *, const char *, PetscBool *, PetscBool *);
PetscErrorCode PetscOptionsGetString(PetscOptions, const char *, const char *, char *, size_t, PetscBool *);
PetscErrorCode PetscOptionsGetIntArray(PetscOptions, const char *, const char *, PetscInt *, PetscInt *, PetscBool *);

PetscErrorCode VecGetArray(Vec, PetscScalar **);
PetscErrorCode VecRestoreArray(Vec, PetscScalar **);
PetscErrorCode VecGetArrayRead(Vec, const PetscScalar **);
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar **);
PetscErrorCode VecGetArrayWrite(Vec, PetscScalar **);
PetscErrorCode VecRestoreArrayWrite(Vec, PetscScalar **);
PetscErrorCode VecGetOwnershipRange(Vec, PetscInt *, PetscInt *);
PetscErrorCode VecGetLocalSize(Vec, PetscInt *);
PetscErrorCode VecGetSize(Vec, PetscInt *);
PetscErrorCode VecSet(Vec, PetscScalar);
PetscErrorCode VecZeroEntries(Vec);

PetscErrorCode MatGetOwnershipRange(Mat, PetscInt *, PetscInt *);
PetscErrorCode MatGetLocalSize(Mat, PetscInt *, PetscInt *);
PetscErrorCode MatGetSize(Mat, PetscInt *, PetscInt *);
PetscErrorCode MatGetBlockSize(Mat, PetscInt *);
PetscErrorCode MatGetType(Mat, MatType *);
PetscErrorCode MatMissingDiagonal(Mat, PetscBool *, PetscInt *);

/* building vectors and matrices */
PetscErrorCode VecCreate(MPI_Comm, Vec *);
PetscErrorCode VecCreateSeq(MPI_Comm, PetscInt, Vec *);
PetscErrorCode VecCreateMPI(MPI_Comm, PetscInt, PetscInt, Vec *);
PetscErrorCode VecSetType(Vec, VecType);
PetscErrorCode VecSetFromOptions(Vec);
PetscErrorCode VecSetSizes(Vec, PetscInt, PetscInt);
PetscErrorCode VecSetUp(Vec);
PetscErrorCode VecSetValue(Vec, PetscInt, PetscScalar, InsertMode);
PetscErrorCode VecSetValues(Vec, PetscInt, const PetscInt *, const PetscScalar *, InsertMode);
PetscErrorCode VecAssemblyBegin(Vec);
PetscErrorCode VecAssemblyEnd(Vec);
PetscErrorCode VecDuplicate(Vec, Vec *);
PetscErrorCode VecDestroy(Vec *);
PetscErrorCode MatCreate(MPI_Comm, Mat *);
PetscErrorCode MatSetType(Mat, MatType);
PetscErrorCode MatSetFromOptions(Mat);
PetscErrorCode MatSetBlockSize(Mat, PetscInt);
PetscErrorCode MatSetSizes(Mat, PetscInt, PetscInt, PetscInt, PetscInt);
PetscErrorCode MatSetUp(Mat);
PetscErrorCode MatSetOption(Mat, MatOption, PetscBool);
PetscErrorCode MatSeqAIJSetPreallocation(Mat, PetscInt, const PetscInt *);
PetscErrorCode MatMPIAIJSetPreallocation(Mat, PetscInt, const PetscInt *, PetscInt, const PetscInt *);
PetscErrorCode MatSeqBAIJSetPreallocation(Mat, PetscInt, PetscInt, const PetscInt *);
PetscErrorCode MatMPIBAIJSetPreallocation(Mat, PetscInt, PetscInt, const PetscInt *, PetscInt, const PetscInt *);
PetscErrorCode MatXAIJSetPreallocation(Mat, PetscInt, const PetscInt *, const PetscInt *, const PetscInt *, const PetscInt *);
PetscErrorCode MatSetValue(Mat, PetscInt, PetscInt, PetscScalar, InsertMode);
PetscErrorCode MatSetValues(Mat, PetscInt, const PetscInt *, PetscInt, const PetscInt *, const PetscScalar *, InsertMode);
PetscErrorCode MatSetValuesBlocked(Mat, PetscInt, const PetscInt *, PetscInt, const PetscInt *, const PetscScalar *, InsertMode);
PetscErrorCode MatAssemblyBegin(Mat, MatAssemblyType);
PetscErrorCode MatAssemblyEnd(Mat, MatAssemblyType);
PetscErrorCode MatCreateMPIAIJWithArrays(MPI_Comm, PetscInt, PetscInt, PetscInt, PetscInt, const PetscInt *, const PetscInt *, const PetscScalar *, Mat *);
PetscErrorCode MatCreateVecs(Mat, Vec *, Vec *);
PetscErrorCode MatDestroy(Mat *);

PetscErrorCode KSPGetPC(KSP, PC *);
PetscErrorCode KSPGetOperators(KSP, Mat *, Mat *);
PetscErrorCode KSPSetUp(KSP);
PetscErrorCode KSPGetType(KSP, KSPType *);
PetscErrorCode PCSetUp(PC);
PetscErrorCode PCGetType(PC, PCType *);
PetscErrorCode PCGetOperators(PC, Mat *, Mat *);
PetscErrorCode PCBJacobiGetSubKSP(PC, PetscInt *, PetscInt *, KSP **);
PetscErrorCode PCASMGetSubKSP(PC, PetscInt *, PetscInt *, KSP **);
PetscErrorCode PCMGGetLevels(PC, PetscInt *);
PetscErrorCode PCMGGetSmoother(PC, PetscInt, KSP *);
PetscErrorCode PCMGGetSmootherUp(PC, PetscInt, KSP *);
PetscErrorCode PCMGGetSmootherDown(PC, PetscInt, KSP *);
PetscErrorCode PCMGGetCoarseSolve(PC, KSP *);
PetscErrorCode PCKSPGetKSP(PC, KSP *);
PetscErrorCode PCShellGetContext(PC, void **);
PetscErrorCode PCShellSetContext(PC, void *);
PetscErrorCode PCShellSetName(PC, const char *);
PetscErrorCode PCShellGetName(PC, const char **);
PetscErrorCode PCShellSetSetUp(PC, PetscErrorCode (*)(PC));
PetscErrorCode PCShellSetApply(PC, PetscErrorCode (*)(PC, Vec, Vec));
PetscErrorCode PCShellSetDestroy(PC, PetscErrorCode (*)(PC));
PetscErrorCode PCShellSetApplyRichardson(PC, PetscErrorCode (*)(PC, Vec, Vec, Vec, PetscReal, PetscReal, PetscReal, PetscInt, PetscBool, PetscInt *, PCRichardsonConvergedReason *));
#ifdef __cplusplus
}
#endif
#endif
