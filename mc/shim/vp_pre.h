// Force-included (precompiled where possible): the shim, and the binding headers every binding needs.
#ifndef VP_PRE_H
#define VP_PRE_H
#if defined(__cplusplus) && !defined(NB_BUILD)
#include "vp_tbb.h"
#ifdef Py_LIMITED_API
#include <nanobind/nanobind.h>
#include <nanobind/ndarray.h>
#else
#include <cmath>
#include <complex>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#endif
#endif
#endif
