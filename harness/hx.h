// Helpers shared by the harnesses (Lox side).
#pragma once
#include "common.h"
#include "object.h"
#include "value.h"
#include "vm.h"
#include "memory.h"
#include "compiler.h"
#include "runtime.h"
#include "options.h"
#include "table.h"
#include "sym.h"
#include <stdio.h>
#include <string.h>
#include <math.h>
void hx_init(void);                         // boots the VM with the hx* natives
int  hx_run(const char *src);               // 1 when the script ran to its end
ObjFunction *hx_compile(const char *src);   // NULL on a compile error
static inline Value num(double d) { return NUMBER_VAL(d); }
static inline Value inum(int64_t i) { return NUMBER_VAL((double)i); }
static inline int isnum(Value v) { return IS_NUMBER(v); }
static inline int biteq(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
// both NaN, or the same bits
static inline int sameNum(double a, double b) { return biteq(a, b) | ((a != a) & (b != b)); }
Value hx_str(const char *s, int n);          // fresh string object
Value hx_glob(const char *name);             // value of a global variable (nil when missing)
int hx_is_str(Value v, const char *s, int n);// v is a string with exactly these bytes
int hx_errIs(Value err, const char *cls);    // class name of an error instance
void hx_set(const char *name, Value v);      // defines a global variable
const char *hx_errName(Value err);           // class name of a caught error, "" for anything else
#define VAL2BOOL(v) (AS_BOOL(v))
