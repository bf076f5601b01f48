/* The numpy C API as the verifier sees it (see ../Python.h). */
#ifndef QPV_NUMPY_H
#define QPV_NUMPY_H
typedef long npy_intp;
typedef double npy_double;
typedef double npy_float64;
typedef struct tagPyArrayObject { long refs; long nd; long isflt; long isdbl; long isctg; long *dims; double *data; } PyArrayObject;
typedef struct _PyArray_Descr { long dummy; } PyArray_Descr;
extern PyTypeObject PyArray_Type;
#define NPY_FLOAT 11
#define NPY_DOUBLE 12
#define NPY_FLOAT64 12
#define NPY_LONG 7
#define NPY_ARRAY_C_CONTIGUOUS 0x0001
#define NPY_ARRAY_ALIGNED 0x0100
#define NPY_ARRAY_WRITEABLE 0x0400
#define NPY_ARRAY_CARRAY 0x0501
#define NPY_ARRAY_IN_ARRAY 0x0101
#define NPY_ARRAY_DEFAULT 0x0501
#define NPY_ARRAY_FORCECAST 0x0010
#define NPY_ARRAY_ENSURECOPY 0x0020
int PyArray_Check(void *);
int PyArray_NDIM(const PyArrayObject *);
npy_intp *PyArray_DIMS(PyArrayObject *);
npy_intp *PyArray_SHAPE(PyArrayObject *);
npy_intp PyArray_DIM(const PyArrayObject *, int);
npy_intp PyArray_SIZE(PyArrayObject *);
int PyArray_TYPE(const PyArrayObject *);
int PyArray_ISFLOAT(PyArrayObject *);
int PyArray_ISCONTIGUOUS(PyArrayObject *);
int PyArray_IS_C_CONTIGUOUS(PyArrayObject *);
void *PyArray_DATA(PyArrayObject *);
char *PyArray_BYTES(PyArrayObject *);
PyArrayObject *PyArray_GETCONTIGUOUS(PyArrayObject *);
PyObject *PyArray_Cast(PyArrayObject *, int);
PyObject *PyArray_FROM_OTF(PyObject *, int, int);
PyObject *PyArray_FROMANY(PyObject *, int, int, int, int);
PyObject *PyArray_ContiguousFromAny(PyObject *, int, int, int);
PyObject *PyArray_NewCopy(PyArrayObject *, int);
PyObject *PyArray_SimpleNew(int, npy_intp *, int);
PyObject *PyArray_ZEROS(int, npy_intp *, int, int);
PyObject *PyArray_EMPTY(int, npy_intp *, int, int);
void import_array(void);
#endif
