/* Fallback for units that only compile when __GNUC__ >= 8 (clang reports 4): pull in the system
 * headers first, as clang sees them, then present the compiler version the build really uses. */
#ifdef __cplusplus
#include <Python.h>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <list>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <stdexcept>
#include <new>
#else
#include <Python.h>
#include <stdlib.h>
#include <string.h>
#endif
#include <immintrin.h>
#include <cpuid.h>
#undef __GNUC__
#define __GNUC__ 13
