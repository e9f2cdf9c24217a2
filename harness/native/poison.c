/*
 * Memory monitor for numpy: an allocation handler (numpy's PyDataMem_SetHandler) which
 *   - fills every new buffer with 0xFF bytes (a NaN for doubles), so that reading uninitialised array memory shows up
 *     in results as NaN instead of depending on chance;
 *   - surrounds every buffer with guard zones, checked when the buffer is released, so that writing outside an array is
 *     detected (reading outside yields NaN);
 *   - fills released buffers with 0xFF again.
 */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

#define ZONE 64
#define MAGIC 0x5aa5c33c0ff0e11eULL

typedef struct { size_t size; uint64_t magic; } header;

static unsigned long long n_alloc, n_free, n_bytes, n_bad;

static void *place(char *base, size_t size, int fill) {
    header *h = (header *)base;
    h->size = size;
    h->magic = MAGIC;
    memset(base + sizeof(header), 0xFF, ZONE - sizeof(header));
    memset(base + ZONE, fill, size);
    memset(base + ZONE + size, 0xFF, ZONE);
    n_alloc++;
    n_bytes += size;
    return base + ZONE;
}

static int damaged(unsigned char *base, size_t size) {
    size_t i;
    for (i = sizeof(header); i < ZONE; i++) if (base[i] != 0xFF) return 1;
    for (i = 0; i < ZONE; i++) if (base[ZONE + size + i] != 0xFF) return 1;
    return 0;
}

static void *p_malloc(void *ctx, size_t size) {
    char *base = aligned_alloc(64, (size + 2 * ZONE + 63) / 64 * 64);
    return base ? place(base, size, 0xFF) : NULL;
}

static void *p_calloc(void *ctx, size_t nelem, size_t elsize) {
    size_t size = nelem * elsize;
    if (elsize && size / elsize != nelem) return NULL;
    char *base = aligned_alloc(64, (size + 2 * ZONE + 63) / 64 * 64);
    return base ? place(base, size, 0) : NULL;
}

static void p_free(void *ctx, void *ptr, size_t size) {
    if (!ptr) return;
    unsigned char *base = (unsigned char *)ptr - ZONE;
    header *h = (header *)base;
    n_free++;
    if (h->magic != MAGIC) { n_bad++; return; }
    if (damaged(base, h->size)) n_bad++;
    memset(ptr, 0xFF, h->size);
    h->magic = 0;
    free(base);
}

static void *p_realloc(void *ctx, void *ptr, size_t size) {
    void *res = p_malloc(ctx, size);
    if (res && ptr) {
        header *h = (header *)((char *)ptr - ZONE);
        memcpy(res, ptr, h->size < size ? h->size : size);
        p_free(ctx, ptr, h->size);
    }
    return res;
}

static PyDataMem_Handler handler = {"verif_poison", 1, {NULL, p_malloc, p_calloc, p_realloc, p_free}};

static PyObject *install(PyObject *self, PyObject *args) {
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}

static PyObject *stats(PyObject *self, PyObject *args) {
    return Py_BuildValue("(KKKK)", n_alloc, n_free, n_bytes, n_bad);
}

static PyMethodDef methods[] = {
    {"install", install, METH_NOARGS, "Use the monitoring allocator for all new arrays."},
    {"stats", stats, METH_NOARGS, "(buffers allocated, released, bytes, damaged)"},
    {NULL, NULL, 0, NULL}};

static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "verif_poison", NULL, -1, methods};

PyMODINIT_FUNC PyInit_verif_poison(void) {
    import_array();
    return PyModule_Create(&mod);
}
