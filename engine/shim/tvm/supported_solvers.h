/* Copyright 2017-2021 CNRS-AIST JRL and CNRS-UM LIRMM */

#pragma once

/** This file is generated by CMake, edit /repo/include/tvm/supported_solvers.in.h if needed */

/** For every supported solvers in TVM:
 * - define a related macro (e.g. TVM_USE_LSSOL)
 * - includes the related solver
 *
 * Use defaultLeastSquareSolver if you do not care to choose a particular solver
 */

// clang-format off


#ifdef TVM_USE_LSSOL
#  include <tvm/solver/LSSOLLeastSquareSolver.h>
#endif


#ifdef TVM_USE_QLD
#  include <tvm/solver/QLDLeastSquareSolver.h>
#endif


#ifdef TVM_USE_QUADPROG
#  include <tvm/solver/QuadprogLeastSquareSolver.h>
#endif


#ifdef TVM_USE_LEXLS
#  include <tvm/solver/LexLSLeastSquareSolver.h>
#endif

// clang-format on

#include <tvm/solver/defaultLeastSquareSolver.h>
