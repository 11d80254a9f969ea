/* Contracts of the Python/C API, as CBMC stubs with ghost state.

   Every stub states what the documentation of CPython 3.12 says of the
   function: what it requires (arguments alive, no error pending), whose
   references it returns, and every outcome it may have (any object, any
   error).  What happened is recorded in a ghost log, which the contracts of
   the C functions (proxy_h.c, checker_h.c) are stated over. */
#define NDEBUG 1
#include <Python.h>
#include <stdarg.h>
#include <stdlib.h>

int nondet_int(void);
_Bool nondet_bool(void);
long nondet_long(void);

#define ASSERT(c, m) __CPROVER_assert(c, m)
#define ASSUME(c) __CPROVER_assume(c)
/* must be reachable: the assertion is expected to fail */
#define REACH(m) __CPROVER_assert(0, "REACH: " m)

/* ------------------------------------------------------------ objects */
enum { K_OBJ, K_STR, K_TUPLE, K_TYPE };
typedef struct {
    PyObject ob_base;
    PyObject *field[2];         /* the C structures live here */
    int kind, gi, exp;          /* exp: the references others hold to it */
    const char *text;           /* K_STR: NULL if it cannot be encoded */
    PyObject *item[4];          /* K_TUPLE: owned references */
    int n;
} gobj;

#define MAXOBJ 32
extern gobj *g_obj[MAXOBJ];        /* every tracked object */
extern _Bool g_alive[MAXOBJ];
extern int g_n;

PyObject *g_fresh(PyTypeObject *type, int refs);   /* refs held by others */
PyObject *g_string(const char *text);              /* immortal */
_Bool g_istext(PyObject *o, const char *text);
void g_others(PyObject *o, int by);
#define ALIVE(o) ASSERT((o) != NULL && Py_REFCNT(o) > 0, \
    "C23: only live objects are handed to the interpreter")

/* what others hold may be dropped while arbitrary code runs */
extern PyObject *g_droppable;

/* ------------------------------------------------------------- errors */
extern PyObject *g_err;            /* the exception class, or NULL */
extern PyObject *g_errval;         /* its value where the code set it */
extern int g_errid, g_errcount;
extern unsigned g_errmask;
void g_raise(PyObject *exc);       /* the code raises */
void g_fail(void);                 /* a call fails, with any error */
#define NOERR ASSERT(g_err == NULL, \
    "C23: no call is made while an error is pending")
extern _Bool g_sure;               /* construction of the scene succeeds */
extern int g_shape;                /* 1, 2: the checker has the slots */
extern _Bool g_init;               /* while the module is initialised */
extern PyObject *E_Forbidden, *E_Unauthorized;

/* ---------------------------------------------------------- ghost log */
enum { EV_CHECK = 1, EV_PROXY, EV_OP, EV_GETATTR, EV_CALL, EV_CALLM,
       EV_TRUE, EV_LOOKUP, EV_CONTAINS, EV_HASATTR, EV_ISINST, EV_FORMAT };
enum { H_SLOT, H_CHECK, H_GET, H_SET, H_OTHER };
typedef struct {
    int kind, op;
    PyObject *who, *a, *b, *c;
    PyObject *r;                /* what it returned (NULL: it failed) */
    long i;
    int err;                    /* the error it failed with */
} event;
#define MAXEV 12
extern event g_log[MAXEV];
extern int g_nlog;
event *g_event(int kind, int op, PyObject *who, PyObject *a, PyObject *b,
               PyObject *c);

enum { OP_NEG = 100, OP_POS, OP_ABS, OP_INVERT, OP_INT, OP_FLOAT, OP_INDEX,
       OP_ADD, OP_SUB, OP_MUL, OP_MOD, OP_DIVMOD, OP_POW, OP_LSHIFT,
       OP_RSHIFT, OP_AND, OP_XOR, OP_OR, OP_FLOORDIV, OP_TRUEDIV,
       OP_IADD, OP_ISUB, OP_IMUL, OP_IMOD, OP_IPOW, OP_ILSHIFT, OP_IRSHIFT,
       OP_IAND, OP_IXOR, OP_IOR, OP_IFLOORDIV, OP_ITRUEDIV,
       OP_ITER, OP_NEXT, OP_GETATTR, OP_SETATTR, OP_DELATTR, OP_CALL,
       OP_LEN, OP_HASH, OP_BOOL, OP_RICHCMP, OP_STR, OP_REPR, OP_CONTAINS,
       OP_GETITEM, OP_SETITEM, OP_DELITEM, OP_LENGTH_HINT };

/* ------------------------------------------------------ module objects */
extern PyTypeObject *g_ready;      /* the type made ready last */
extern PyModuleDef *g_module;
extern PyObject *g_exported(const char *name);
PyCFunction g_function(PyMethodDef *defs, const char *name, int flags);
extern PyTypeObject T_obj, T_sub, T_substr, T_checker, T_base, T_tuple;
extern PyObject *G_Proxy, *G_thread_local, *G_CheckerPublic;

/* what PyArg_Parse finds */
extern PyObject *g_arg[3];
extern int g_nargs;

/* all references are accounted for, ret being handed to the caller */
void g_balance(PyObject *ret);
void g_frame_save(void);   /* written from the source on each run */
void g_frame_check(void);
PyObject *g_result(void);          /* what a successful call may return */
extern PyObject *g_pool[4];
extern int g_npool;
/* dictionaries */
extern PyObject *g_choices[4], *g_available;
extern int g_maxcall;
extern PyObject *g_dict_value(PyObject *d, PyObject *key);
/* proofs by induction over the loop: see `cut` in vc/cside.py */
extern _Bool g_cut;
extern int g_weak;
