#pragma once
// Byte offsets of named fields, taken from the compiler; the specifications refer to fields by name.
#include <cstddef>
#include "fn_log.h"
#define VP_OFF(T, F) extern "C" { extern const unsigned long vp_off__##T##__##F; const unsigned long vp_off__##T##__##F = __builtin_offsetof(FNLog::T, F); }
#define VP_INT(NAME, EXPR) extern "C" { extern const long vp_int__##NAME; const long vp_int__##NAME = (long)(EXPR); }
// keeps the layout of a type in the module
#define VP_TYPE(T) extern "C" FNLog::T* vp_type__##T(FNLog::T* p) { return p + 1; }
#define VP_OFFG(T, F) extern "C" { extern const unsigned long vp_off__##T##__##F; const unsigned long vp_off__##T##__##F = __builtin_offsetof(::T, F); }
