// numpy data allocator (NEP 49) whose uninitialised memory is decided by the
// simulator: every fresh array body is filled from a seeded byte pattern.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

static uint64_t st = 1; static int mode = 0; static unsigned long count = 0;
static uint64_t nxt(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; }
static void fill(char *p, size_t n) {
    count++;
    if (mode == 1) memset(p, 0, n);
    else if (mode == 2) memset(p, 0xff, n);
    else if (mode == 3) { for (size_t i = 0; i < n; i++) p[i] = (char)nxt(); }
    else if (mode == 4) { for (size_t i = 0; i < n; i++) p[i] = nxt() & 1; }
    else if (mode == 5) { double v = 1e3; for (size_t i = 0; i + 8 <= n; i += 8) memcpy(p + i, &v, 8); }
    else if (mode == 6) memset(p, 1, n);
}
static void *m(void *c, size_t n) { char *p = malloc(n ? n : 1); if (p) fill(p, n); return p; }
static void *cz(void *c, size_t a, size_t b) { return calloc(a ? a : 1, b ? b : 1); }
static void *re(void *c, void *p, size_t n) { return realloc(p, n ? n : 1); }
static void fr(void *c, void *p, size_t n) { free(p); }
static PyDataMem_Handler H = {"hapsim_fill", 1, {NULL, m, cz, re, fr}};

static PyObject *set(PyObject *s, PyObject *a) {
    unsigned long long sd; int mo;
    if (!PyArg_ParseTuple(a, "iK", &mo, &sd)) return NULL;
    mode = mo; st = sd * 0x9E3779B97F4A7C15ull + 1;
    if (!st) st = 1;
    PyObject *cap = PyCapsule_New(&H, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *get(PyObject *s, PyObject *a) { return PyLong_FromUnsignedLong(count); }
static PyMethodDef M[] = {{"set", set, METH_VARARGS, ""}, {"count", get, METH_NOARGS, ""}, {0}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "hapfill", 0, -1, M};
PyMODINIT_FUNC PyInit_hapfill(void) { import_array(); return PyModule_Create(&D); }
