// Compiled with the instrumentation of the code under test: header-only classes, so that their accesses are simulated.
#include <cassert>
#include <cmath>
#include "arrayview.hpp"
#include "srmatrixdefs.hpp"
template class blasted::ArrayView<int>;
template class blasted::ArrayView<double>;
