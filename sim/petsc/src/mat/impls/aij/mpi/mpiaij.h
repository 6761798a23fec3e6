#ifndef SIM_MPIAIJ_H
#define SIM_MPIAIJ_H
#include "../seq/aij.h"
typedef struct { Mat A, B; PetscMPIInt size, rank; } Mat_MPIAIJ;
#endif
