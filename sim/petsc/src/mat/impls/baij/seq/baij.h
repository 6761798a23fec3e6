#ifndef SIM_BAIJ_H
#define SIM_BAIJ_H
#include "../../aij/seq/aij.h"
typedef struct {
    SEQAIJHEADER(PetscScalar);
    PetscInt bs2, mbs, nbs;
    PetscScalar *mult_work, *sor_work;
} Mat_SeqBAIJ;
#endif
