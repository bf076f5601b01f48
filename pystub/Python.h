/* The Python C API as the verifier sees it: opaque functions with contracts (qpv/pyapi.py).
   Macros of the real headers are declared as functions of the same name. */
#ifndef QPV_PYTHON_H
#define QPV_PYTHON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 12
#define PY_VERSION_HEX 0x030c0000
typedef long Py_ssize_t;
typedef struct _object { long refs; } PyObject;
typedef struct _typeobject { long dummy; } PyTypeObject;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct PyMethodDef { const char *ml_name; void *ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct PyModuleDef { long base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods; void *m_slots; void *m_traverse; void *m_clear; void *m_free; } PyModuleDef;
#define PyModuleDef_HEAD_INIT 0
#define PyMODINIT_FUNC PyObject *
#define METH_VARARGS 1
#define METH_KEYWORDS 2
extern PyObject *PyExc_TypeError, *PyExc_ValueError, *PyExc_RuntimeError, *PyExc_MemoryError, *PyExc_UserWarning, *PyExc_OverflowError, *PyExc_KeyError, *PyExc_IndexError, *PyExc_Exception, *PyExc_ArithmeticError, *PyExc_RuntimeWarning, *PyExc_DeprecationWarning;
extern PyTypeObject PyDict_Type, PyList_Type, PyTuple_Type, PyFloat_Type, PyLong_Type, PyBool_Type, PyUnicode_Type, PyBaseObject_Type;
PyObject *qpv_none(void);
#define Py_None (qpv_none())
#define Py_RETURN_NONE return Py_None
int PyArg_ParseTupleAndKeywords(PyObject *, PyObject *, const char *, char **, ...);
int PyArg_ParseTuple(PyObject *, const char *, ...);
PyObject *Py_BuildValue(const char *, ...);
void PyErr_SetString(PyObject *, const char *);
PyObject *PyErr_Format(PyObject *, const char *, ...);
PyObject *PyErr_NoMemory(void);
PyObject *PyErr_Occurred(void);
void PyErr_Clear(void);
int PyErr_WarnEx(PyObject *, const char *, Py_ssize_t);
int PyErr_WarnFormat(PyObject *, Py_ssize_t, const char *, ...);
int PyErr_CheckSignals(void);
PyObject *PyDict_GetItemString(PyObject *, const char *);
PyObject *PyDict_GetItem(PyObject *, PyObject *);
PyObject *PyDict_New(void);
int PyDict_SetItemString(PyObject *, const char *, PyObject *);
int PyLong_Check(PyObject *);
int PyLong_CheckExact(PyObject *);
int PyBool_Check(PyObject *);
int PyFloat_Check(PyObject *);
int PyFloat_CheckExact(PyObject *);
int PyNumber_Check(PyObject *);
int PyDict_Check(PyObject *);
int PyObject_IsTrue(PyObject *);
int PyObject_TypeCheck(PyObject *, PyTypeObject *);
long PyLong_AsLong(PyObject *);
long PyLong_AsLongAndOverflow(PyObject *, int *);
double PyFloat_AsDouble(PyObject *);
double PyFloat_AS_DOUBLE(PyObject *);
double PyLong_AsDouble(PyObject *);
PyObject *PyLong_FromLong(long);
PyObject *PyFloat_FromDouble(double);
void qpv_incref(void *);
void qpv_decref(void *);
void qpv_xincref(void *);
void qpv_xdecref(void *);
#define Py_INCREF(x) qpv_incref((void *)(x))
#define Py_DECREF(x) qpv_decref((void *)(x))
#define Py_XINCREF(x) qpv_xincref((void *)(x))
#define Py_XDECREF(x) qpv_xdecref((void *)(x))
#define Py_CLEAR(x) do { qpv_xdecref((void *)(x)); (x) = NULL; } while (0)
void qpv_gil_release(void);
void qpv_gil_take(void);
#define Py_BEGIN_ALLOW_THREADS { qpv_gil_release();
#define Py_END_ALLOW_THREADS qpv_gil_take(); }
#define Py_BLOCK_THREADS qpv_gil_take();
#define Py_UNBLOCK_THREADS qpv_gil_release();
PyObject *PyModule_Create(PyModuleDef *);
int PyModule_AddIntConstant(PyObject *, const char *, long);
int PyModule_AddStringConstant(PyObject *, const char *, const char *);
void *PyMem_Malloc(size_t);
void PyMem_Free(void *);
void PySys_WriteStdout(const char *, ...);
#define Py_UNUSED(x) x
#endif
