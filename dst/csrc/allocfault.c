/* numpy data-allocator seam: a PyDataMem handler that forwards every call to
 * numpy's default handler, except that the k-th allocation after arm(k) fails
 * (returns NULL), once.  Only allocations of at least minsize bytes count:
 * numpy itself crashes if it cannot allocate the 0-d array behind a scalar.  Everything is a function of the sequence of
 * allocations performed, nothing else. */
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <numpy/arrayobject.h>

static PyDataMem_Handler *def = NULL;
static long countdown = 0;   /* 0: not armed */
static long seen = 0;        /* allocations since arm() */
static int fired = 0;

static size_t minsize = 0;

static int fail_now(size_t size) {
    if (size < minsize) return 0;
    seen++;
    if (countdown > 0 && --countdown == 0) { fired = 1; return 1; }
    return 0;
}
static void *my_malloc(void *ctx, size_t size) {
    if (fail_now(size)) return NULL;
    return def->allocator.malloc(def->allocator.ctx, size);
}
static void *my_calloc(void *ctx, size_t n, size_t sz) {
    if (fail_now(n*sz)) return NULL;
    return def->allocator.calloc(def->allocator.ctx, n, sz);
}
static void *my_realloc(void *ctx, void *p, size_t size) {
    if (fail_now(size)) return NULL;
    return def->allocator.realloc(def->allocator.ctx, p, size);
}
static void my_free(void *ctx, void *p, size_t size) {
    def->allocator.free(def->allocator.ctx, p, size);
}
static PyDataMem_Handler handler = {
    "dst_allocfault", 1, {NULL, my_malloc, my_calloc, my_realloc, my_free}
};
static PyObject *installed = NULL;

static PyObject *install(PyObject *self, PyObject *args) {
    if (installed == NULL) {
        installed = PyCapsule_New(&handler, "mem_handler", NULL);
        if (installed == NULL) return NULL;
        PyObject *old = PyDataMem_SetHandler(installed);
        if (old == NULL) return NULL;
        Py_DECREF(old);
    }
    Py_RETURN_NONE;
}
static PyObject *arm(PyObject *self, PyObject *args) {
    long k, m = 0;
    if (!PyArg_ParseTuple(args, "l|l", &k, &m)) return NULL;
    countdown = k; minsize = (size_t)m; seen = 0; fired = 0;
    Py_RETURN_NONE;
}
static PyObject *disarm(PyObject *self, PyObject *args) {
    countdown = 0;
    return Py_BuildValue("li", seen, fired);
}
static PyMethodDef methods[] = {
    {"install", install, METH_NOARGS, ""},
    {"arm", arm, METH_VARARGS, ""},
    {"disarm", disarm, METH_NOARGS, ""},
    {NULL, NULL, 0, NULL}
};
static struct PyModuleDef mod = {
    PyModuleDef_HEAD_INIT, "allocfault", NULL, -1, methods
};
PyMODINIT_FUNC PyInit_allocfault(void) {
    import_array();
    PyObject *caps = PyDataMem_DefaultHandler;
    def = (PyDataMem_Handler *)PyCapsule_GetPointer(caps, "mem_handler");
    if (def == NULL) return NULL;
    return PyModule_Create(&mod);
}
