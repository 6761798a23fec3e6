/* layout of the sequential sparse matrix objects, as far as plugins read it */
#ifndef SIM_AIJ_H
#define SIM_AIJ_H
#include "petscksp.h"
struct _p_Mat {
    void *hdr[4];
    void *data;
    struct SimMat *sim;
};
#define SEQAIJHEADER(datatype) \
    PetscBool roworiented; PetscInt nonew, nounused; PetscBool singlemalloc; PetscInt maxnz; PetscInt *imax; PetscInt *ilen; \
    PetscBool free_imax_ilen; PetscInt reallocs; PetscInt rmax; PetscBool keepnonzeropattern, ignorezeroentries, free_ij, free_a; \
    PetscInt nz; PetscInt *i; PetscInt *j; PetscInt *diag; PetscInt nonzerorowcnt; PetscBool free_diag; datatype *a; \
    PetscScalar *solve_work
typedef struct {
    SEQAIJHEADER(PetscScalar);
    PetscScalar *saved_values, *idiag, *mdiag, *ssor_work;
} Mat_SeqAIJ;
#endif
