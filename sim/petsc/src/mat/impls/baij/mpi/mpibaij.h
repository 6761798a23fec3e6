#ifndef SIM_MPIBAIJ_H
#define SIM_MPIBAIJ_H
#include "../seq/baij.h"
typedef struct { Mat A, B; PetscMPIInt size, rank; } Mat_MPIBAIJ;
#endif
