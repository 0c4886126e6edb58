#pragma once
enum { MT_CHAR = 1006, MT_C_INT = 1001, MT_C_DBL = 1004 };
extern "C" { int MA_init(int, int, int); int MA_sizeof(int, int, int); }
typedef struct { float real, imag; } SingleComplex; typedef struct { double real, imag; } DoubleComplex;
