/* Fault-injection seam around the allocations made by the extension.
 *
 * Linked with --wrap=<sym>: every call the extension makes to <sym> comes
 * here.  When armed, the n-th call fails the way the real one would fail:
 * NULL from malloc, std::bad_alloc from operator new, NULL with MemoryError
 * set from the CPython API.  Disarmed (the default) it only forwards.
 */
#include <Python.h>
#include <stdlib.h>

static long armed = 0;      /* 0: off                                      */
static long count = 0;      /* eligible calls seen since arming            */
static long fail_at = 0;    /* 1-based index of the call that fails        */
static long fail_len = 1;   /* how many consecutive calls fail             */
static long failed = 0;     /* how many were made to fail                  */
static long mask = 0;       /* 1: C allocs, 2: C++ new, 4: CPython API     */

__attribute__((visibility("default"))) void sim_arm(long at, long len, long m)
{ count = 0; failed = 0; fail_at = at; fail_len = len; mask = m; armed = 1; }
__attribute__((visibility("default"))) void sim_disarm(void) { armed = 0; }
__attribute__((visibility("default"))) long sim_count(void) { return count; }
__attribute__((visibility("default"))) long sim_failed(void) { return failed; }

/* Contents of fresh memory: unspecified in reality, here decided by the seed. */
static long fill = -1;
static long live = 0;       /* blocks allocated and not yet freed             */
__attribute__((visibility("default"))) void sim_fill(long byte) { fill = byte; }
__attribute__((visibility("default"))) long sim_live(void) { return live; }

static void *fresh(void *p, size_t n)
{
    if (p) {
        live++;
        if (fill >= 0) {
            unsigned char *c = (unsigned char *)p;
            unsigned long x = 0x9E3779B97F4A7C15ul * (unsigned long)(fill + 1);
            size_t i;
            for (i = 0; i < n; i++) {
                if ((i & 7) == 0) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; }
                c[i] = (unsigned char)(x >> (8 * (i & 7)));
            }
        }
    }
    return p;
}

static int hit(long kind)
{
    if (!armed || !(mask & kind)) return 0;
    count++;
    if (count >= fail_at && count < fail_at + fail_len) { failed++; return 1; }
    return 0;
}

/* throws std::bad_alloc (libstdc++) */
extern void _ZSt17__throw_bad_allocv(void) __attribute__((noreturn));

extern void *__real_malloc(size_t);
extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t);
extern void *__real__Znwm(size_t);
extern void *__real__Znam(size_t);

extern void __real_free(void *);
extern void __real__ZdlPv(void *);
extern void __real__ZdaPv(void *);
extern void __real__ZdlPvm(void *, size_t);
extern void __real__ZdaPvm(void *, size_t);

void *__wrap_malloc(size_t n) { return hit(1) ? NULL : fresh(__real_malloc(n), n); }
void *__wrap_calloc(size_t a, size_t b)
{ void *p; if (hit(1)) return NULL; p = __real_calloc(a, b); if (p) live++; return p; }
void *__wrap_realloc(void *p, size_t n)
{ void *q; if (hit(1)) return NULL; q = __real_realloc(p, n); if (q && !p) live++; return q; }
void *__wrap__Znwm(size_t n) { if (hit(2)) _ZSt17__throw_bad_allocv(); return fresh(__real__Znwm(n), n); }
void *__wrap__Znam(size_t n) { if (hit(2)) _ZSt17__throw_bad_allocv(); return fresh(__real__Znam(n), n); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
void __wrap__ZdlPv(void *p) { if (p) live--; __real__ZdlPv(p); }
void __wrap__ZdaPv(void *p) { if (p) live--; __real__ZdaPv(p); }
void __wrap__ZdlPvm(void *p, size_t n) { if (p) live--; __real__ZdlPvm(p, n); }
void __wrap__ZdaPvm(void *p, size_t n) { if (p) live--; __real__ZdaPvm(p, n); }

/* memory of std::string, allocated inside libstdc++ and freed by the extension */
extern char *__real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm(void *, unsigned long *, unsigned long);
char *__wrap__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm(void *s, unsigned long *c, unsigned long o)
{
    char *p;
    if (hit(2)) _ZSt17__throw_bad_allocv();
    p = __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm(s, c, o);
    if (p) live++;
    return p;
}

#define PYWRAP1(name, T1) \
    extern PyObject *__real_##name(T1); \
    PyObject *__wrap_##name(T1 a) { if (hit(4)) return PyErr_NoMemory(); return __real_##name(a); }
#define PYWRAP2(name, T1, T2) \
    extern PyObject *__real_##name(T1, T2); \
    PyObject *__wrap_##name(T1 a, T2 b) { if (hit(4)) return PyErr_NoMemory(); return __real_##name(a, b); }

PYWRAP1(PyTuple_New, Py_ssize_t)
PYWRAP1(PyList_New, Py_ssize_t)
PYWRAP1(PyFloat_FromDouble, double)
PYWRAP1(PyLong_FromLong, long)
PYWRAP1(PyUnicode_FromString, const char *)
PYWRAP1(PySequence_Tuple, PyObject *)
PYWRAP1(PySequence_List, PyObject *)
PYWRAP1(PyNumber_Float, PyObject *)
PYWRAP1(PyObject_GetIter, PyObject *)
PYWRAP2(PySequence_Fast, PyObject *, const char *)
PYWRAP2(PySequence_GetItem, PyObject *, Py_ssize_t)
PYWRAP2(PyObject_CallObject, PyObject *, PyObject *)

extern PyObject *__real_PyDict_New(void);
PyObject *__wrap_PyDict_New(void) { if (hit(4)) return PyErr_NoMemory(); return __real_PyDict_New(); }
extern double __real_PyFloat_AsDouble(PyObject *);
double __wrap_PyFloat_AsDouble(PyObject *o)
{
    /* allocates (and so can fail) only when a __float__ conversion runs */
    if (o && !PyFloat_Check(o) && hit(4)) { PyErr_NoMemory(); return -1.0; }
    return __real_PyFloat_AsDouble(o);
}
extern int __real_PyList_Append(PyObject *, PyObject *);
int __wrap_PyList_Append(PyObject *l, PyObject *o)
{ if (hit(4)) { PyErr_NoMemory(); return -1; } return __real_PyList_Append(l, o); }
