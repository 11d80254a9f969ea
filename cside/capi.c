#include "capi.h"
#include <string.h>

/* ------------------------------------------------------------- objects */
gobj *g_obj[MAXOBJ];
_Bool g_alive[MAXOBJ];
int g_n;
PyObject *g_droppable;
_Bool g_init, g_sure;
int g_maxcall = 4;
_Bool g_cut;
int g_weak;
PyObject *g_pool[4];
int g_npool;

#define IMMORTAL .ob_refcnt = _Py_IMMORTAL_REFCNT
#define TYPE(N, T, F) PyTypeObject N = { \
    .ob_base = {.ob_base = {IMMORTAL, .ob_type = &PyType_Type}}, \
    .tp_name = T, .tp_flags = F}
PyTypeObject PyType_Type = {
    .ob_base = {.ob_base = {IMMORTAL, .ob_type = &PyType_Type}},
    .tp_flags = Py_TPFLAGS_TYPE_SUBCLASS};
TYPE(PyBaseObject_Type, "object", 0);
TYPE(PyDict_Type, "dict", Py_TPFLAGS_DICT_SUBCLASS);
TYPE(PyCapsule_Type, "PyCapsule", 0);
TYPE(T_obj, "T", 0);
TYPE(T_none, "NoneType", 0);
TYPE(T_tuple, "tuple", Py_TPFLAGS_TUPLE_SUBCLASS);
TYPE(T_checker, "C", 0);
TYPE(PyUnicode_Type, "str", Py_TPFLAGS_UNICODE_SUBCLASS);
TYPE(T_substr, "Name", Py_TPFLAGS_UNICODE_SUBCLASS);
PyTypeObject T_base = {
    .ob_base = {.ob_base = {IMMORTAL, .ob_type = &PyType_Type}},
    .tp_name = "ProxyBase"};
PyTypeObject T_sub = {
    .ob_base = {.ob_base = {IMMORTAL, .ob_type = &PyType_Type}},
    .tp_name = "sub"};
PyObject _Py_NoneStruct = {IMMORTAL, .ob_type = &T_none};
PyObject _Py_NotImplementedStruct = {IMMORTAL, .ob_type = &T_none};
PyLongObject _Py_TrueStruct = {.ob_base = {IMMORTAL, .ob_type = &T_none}};
PyLongObject _Py_FalseStruct = {.ob_base = {IMMORTAL, .ob_type = &T_none}};

static gobj *g_new(PyTypeObject *type, int refs)
{
    gobj *o = malloc(sizeof(gobj));
    ASSUME(o != NULL);
    o->ob_base.ob_refcnt = refs;
    o->ob_base.ob_type = type;
    o->field[0] = o->field[1] = NULL;
    o->kind = K_OBJ;
    o->exp = refs;
    o->text = NULL;
    o->n = 0;
    o->gi = g_n;
    ASSERT(g_n < MAXOBJ, "BOUND: the ghost state is large enough");
    ASSUME(g_n < MAXOBJ);
    g_obj[g_n] = o;
    g_alive[g_n] = 1;
    g_n++;
    return o;
}

PyObject *g_fresh(PyTypeObject *type, int refs)
{
    return (PyObject *)g_new(type, refs);
}

static gobj g_strings[100];
static int g_nstrings;

PyObject *g_string(const char *text)
{
    gobj *o = &g_strings[g_nstrings++];
    o->ob_base.ob_refcnt = _Py_IMMORTAL_REFCNT;
    o->ob_base.ob_type = &PyUnicode_Type;
    o->kind = K_STR;
    o->text = text;
    return (PyObject *)o;
}

_Bool g_istext(PyObject *o, const char *text)
{
    if (o == NULL || !PyUnicode_Check(o))
        return 0;
    const char *t = ((gobj *)o)->text;
    return t != NULL && strcmp(t, text) == 0;
}

/* others gain (or lose) a reference */
void g_others(PyObject *o, int by)
{
    if (!_Py_IsImmortal(o))
        ((gobj *)o)->exp += by;
}

static void lose(PyObject *o);

static void dealloc(gobj *o)
{
    ASSERT(o->exp == 0, "C23: every reference is accounted for");
    g_alive[o->gi] = 0;
    free(o);
}

void _Py_Dealloc(PyObject *o)
{
    if (o->ob_type == &T_tuple) {
        gobj *t = (gobj *)o;
        for (int i = 0; i < 3; i++)
            if (i < t->n)
                lose(t->item[i]);
    }
    dealloc((gobj *)o);
}

/* others drop a reference */
static void lose(PyObject *o)
{
    if (_Py_IsImmortal(o))
        return;
    ((gobj *)o)->exp--;
    if (--o->ob_refcnt == 0)
        dealloc((gobj *)o);
}

static void lose_tuple(PyObject *o)
{
    if (_Py_IsImmortal(o))
        return;
    ((gobj *)o)->exp--;
    if (--o->ob_refcnt == 0)
        _Py_Dealloc(o);
}

typedef struct { PyObject *d, *k, *v; _Bool known; } entry;
static entry g_entries[3];

static void env_step(void)
{
    if (g_droppable != NULL && nondet_bool()) {
        PyObject *o = g_droppable;
        g_droppable = NULL;
        for (int i = 0; i < 3; i++)
            if (g_entries[i].v == o)
                g_entries[i].v = NULL;
        lose(o);
    }
}

void g_balance(PyObject *ret)
{
    _Bool ok = 1;
    if (g_errval != NULL) {
        PyObject *v = g_errval;
        g_errval = NULL;
        lose_tuple(v);
    }
    for (int i = 0; i < MAXOBJ; i++)
        if (i < g_n) {
            if (g_alive[i])
                ok = ok && g_obj[i]->ob_base.ob_refcnt ==
                    g_obj[i]->exp + ((PyObject *)g_obj[i] == ret);
            else
                ok = ok && (PyObject *)g_obj[i] != ret;
        }
    ASSERT(ok, "C23: every reference is accounted for");
}

PyObject *g_result(void)
{
    PyObject *f = g_fresh(&T_obj, nondet_bool()), *r = f;
    int c = nondet_int();
    if (c == 0) r = Py_None;
    else if (c == 7 && g_npool > 3) r = g_pool[3];
    else if (c == 1) r = Py_True;
    else if (c == 2) r = Py_False;
    else if (c == 3) r = Py_NotImplemented;
    else if (c == 4 && g_npool > 0) r = g_pool[0];
    else if (c == 5 && g_npool > 1) r = g_pool[1];
    else if (c == 6 && g_npool > 2) r = g_pool[2];
    return r;
}

/* -------------------------------------------------------------- errors */
#define EXCS X(TypeError) X(ValueError) X(AttributeError) X(Exception) \
    X(UnicodeError) X(MemoryError) X(KeyError) X(RuntimeError) \
    X(BaseException) X(SystemError) X(StopIteration) X(UnicodeEncodeError)
#define X(N) static PyTypeObject X_##N = { \
    .ob_base = {.ob_base = {IMMORTAL, .ob_type = &PyType_Type}}, \
    .tp_name = #N}; PyObject *PyExc_##N = (PyObject *)&X_##N;
EXCS
#undef X
static PyTypeObject X_any = {
    .ob_base = {.ob_base = {IMMORTAL, .ob_type = &PyType_Type}}};
static PyTypeObject X_Forbidden = {
    .ob_base = {.ob_base = {IMMORTAL, .ob_type = &PyType_Type}}};
static PyTypeObject X_Unauthorized = {
    .ob_base = {.ob_base = {IMMORTAL, .ob_type = &PyType_Type}}};
PyObject *E_Forbidden = (PyObject *)&X_Forbidden;
PyObject *E_Unauthorized = (PyObject *)&X_Unauthorized;
PyObject *g_err, *g_errval;
int g_errid, g_errcount;
unsigned g_errmask;

static unsigned bit(PyObject *exc)
{
    unsigned b = 0, i = 1;
#define X(N) if (exc == PyExc_##N) b = i; i <<= 1;
    EXCS
#undef X
    return b;
}

void PyErr_Clear(void)
{
    if (g_errval != NULL)
        lose_tuple(g_errval);
    g_err = g_errval = NULL;
    g_errid = 0;
    g_errmask = 0;
}

void g_raise(PyObject *exc)
{
    PyErr_Clear();
    g_err = exc;
    g_errid = ++g_errcount;
    g_errmask = bit(exc) | bit(PyExc_BaseException) | bit(PyExc_Exception);
    if (exc == PyExc_UnicodeError || exc == PyExc_UnicodeEncodeError)
        g_errmask |= bit(PyExc_UnicodeError) | bit(PyExc_ValueError);
}

/* any exception, an instance of any of the classes or of none */
void g_fail(void)
{
    g_err = (PyObject *)&X_any;
    g_errval = NULL;
    g_errid = ++g_errcount;
    g_errmask = (unsigned)nondet_int() | bit(PyExc_BaseException);
}

void PyErr_SetString(PyObject *exc, const char *m)
{
    ASSERT(exc != NULL && m != NULL, "C23: an exception class is raised");
    g_raise(exc);
}

void PyErr_SetNone(PyObject *exc) { g_raise(exc); }

PyObject *PyErr_Format(PyObject *exc, const char *f, ...)
{
    g_raise(exc);
    return NULL;
}

void PyErr_SetObject(PyObject *exc, PyObject *val)
{
    ALIVE(val);
    Py_INCREF(val);
    g_raise(exc);
    g_errval = val;
    g_others(val, 1);
}

PyObject *PyErr_NoMemory(void) { g_raise(PyExc_MemoryError); return NULL; }
PyObject *PyErr_Occurred(void) { return g_err; }

int PyErr_ExceptionMatches(PyObject *exc)
{
    ASSERT(g_err != NULL, "C23: an error is pending where it is examined");
    return g_err == exc || (g_errmask & bit(exc)) != 0;
}

/* ----------------------------------------------------------- ghost log */
event g_log[MAXEV];
int g_nlog;

event *g_event(int kind, int op, PyObject *who, PyObject *a, PyObject *b,
               PyObject *c)
{
    NOERR;
    if (who != NULL) ALIVE(who);
    if (a != NULL) ALIVE(a);
    if (b != NULL) ALIVE(b);
    if (c != NULL) ALIVE(c);
    ASSUME(g_nlog < MAXEV);
    event *e = &g_log[g_nlog++];
    e->kind = kind; e->op = op; e->who = who;
    e->a = a; e->b = b; e->c = c;
    e->r = NULL; e->i = 0; e->err = 0;
    env_step();
    return e;
}

/* an outcome: any object (a new reference), or any error */
static PyObject *outcome(event *e)
{
    PyObject *r = g_result();
    if (nondet_bool()) {
        g_fail();
        e->err = g_errid;
        return NULL;
    }
    Py_INCREF(r);
    e->r = r;
    return r;
}

static long status(event *e, long i)
{
    e->i = i;
    if (i == -1) {
        g_fail();
        e->err = g_errid;
    }
    return i;
}

/* -------------------------------------------------------------- checker */
/* A checker is any object: it has the slots, or the methods, or both. */
static int chk(int how, PyObject *who, PyObject *o, PyObject *name)
{
    event *e = g_event(EV_CHECK, how, who, o, name, NULL);
    return (int)status(e, nondet_bool() ? 0 : -1);
}

static int chk_ass(PyObject *self, PyObject *o, PyObject *name)
{
    return chk(H_SLOT, self, o, name);
}

static PyObject *chk_sub(PyObject *self, PyObject *value)
{
    return outcome(g_event(EV_PROXY, H_SLOT, self, value, NULL, NULL));
}

PyMappingMethods g_chkmap;

int g_shape;
void g_checker_shape(void)
{
    g_chkmap.mp_ass_subscript = g_shape & 1 ? chk_ass : NULL;
    g_chkmap.mp_subscript = g_shape & 2 ? chk_sub : NULL;
    T_checker.tp_as_mapping = g_shape != 0 ? &g_chkmap : NULL;
}

static PyObject *method(PyObject *o, PyObject *name, int n, PyObject *a,
                        PyObject *b)
{
    if (o->ob_type == &T_checker) {
        int how = g_istext(name, "check") ? H_CHECK :
            g_istext(name, "check_getattr") ? H_GET :
            g_istext(name, "check_setattr") ? H_SET : H_OTHER;
        if (how != H_OTHER && n == 2) {
            PyObject *f = g_fresh(&T_obj, nondet_bool());
            if (chk(how, o, a, b) < 0)
                return NULL;
            Py_INCREF(f);
            return f;
        }
        if (g_istext(name, "proxy") && n == 1)
            return outcome(g_event(EV_PROXY, H_CHECK, o, a, NULL, NULL));
    }
    if (g_istext(name, "__length_hint__") && n == 0)
        return outcome(g_event(EV_OP, OP_LENGTH_HINT, NULL, o, NULL, NULL));
    return outcome(g_event(EV_CALLM, n, o, name, a, b));
}

PyObject *PyObject_CallMethodObjArgs(PyObject *o, PyObject *name, ...)
{
    PyObject *a[3] = {NULL, NULL, NULL};
    int n = 0;
    va_list v;
    va_start(v, name);
    for (int i = 0; i < 3; i++) {
        PyObject *x = va_arg(v, PyObject *);
        if (x == NULL)
            break;
        a[n++] = x;
    }
    va_end(v);
    return method(o, name, n, a[0], a[1]);
}

PyObject *PyObject_VectorcallMethod(PyObject *name, PyObject *const *args,
                                    size_t nf, PyObject *kw)
{
    int n = (int)PyVectorcall_NARGS(nf);
    ASSERT(kw == NULL, "C23: keywords are not modelled");
    return method(args[0], name, n - 1, n > 1 ? args[1] : NULL,
                  n > 2 ? args[2] : NULL);
}

PyObject *PyObject_CallMethodNoArgs_(PyObject *o, PyObject *name)
{
    return method(o, name, 0, NULL, NULL);
}

PyObject *PyObject_CallMethod(PyObject *o, const char *name, const char *f,
                              ...)
{
    PyObject *a[2] = {NULL, NULL};
    int n = 0;
    va_list v;
    va_start(v, f);
    if (f != NULL)
        for (int i = 0; f[i] != 0; i++)
            if (f[i] == 'O' && n < 2)
                a[n++] = va_arg(v, PyObject *);
    va_end(v);
    return method(o, g_string(name), n, a[0], a[1]);
}

static PyObject *call(PyObject *f, int n, PyObject *a, PyObject *b)
{
    if (g_init)
        return NULL;
    ASSUME(g_maxcall > 0);             /* the stated bound on chains */
    g_maxcall--;
    return outcome(g_event(EV_CALL, n, f, a, b, NULL));
}

PyObject *PyObject_CallFunctionObjArgs(PyObject *f, ...)
{
    PyObject *a[3] = {NULL, NULL, NULL};
    int n = 0;
    va_list v;
    va_start(v, f);
    for (int i = 0; i < 3; i++) {
        PyObject *x = va_arg(v, PyObject *);
        if (x == NULL)
            break;
        a[n++] = x;
    }
    va_end(v);
    return call(f, n, a[0], a[1]);
}

PyObject *PyObject_CallOneArg(PyObject *f, PyObject *a)
{
    return call(f, 1, a, NULL);
}

PyObject *PyObject_CallNoArgs(PyObject *f)
{
    return call(f, 0, NULL, NULL);
}

PyObject *PyObject_Vectorcall(PyObject *f, PyObject *const *args, size_t nf,
                              PyObject *kw)
{
    int n = (int)PyVectorcall_NARGS(nf);
    ASSERT(kw == NULL, "C23: keywords are not modelled");
    return call(f, n, n > 0 ? args[0] : NULL, n > 1 ? args[1] : NULL);
}

PyObject *PyObject_CallObject(PyObject *f, PyObject *args)
{
    if (g_init)
        return g_fresh((PyTypeObject *)f, 1);
    return call(f, 0, args, NULL);
}

PyObject *PyObject_CallFunction(PyObject *f, const char *fmt, ...)
{
    PyObject *a[2] = {NULL, NULL};
    int n = 0;
    va_list v;
    if (g_init)                        /* the default checker */
        return g_fresh((PyTypeObject *)f, 1);
    va_start(v, fmt);
    if (fmt != NULL)
        for (int i = 0; fmt[i] != 0; i++)
            if (fmt[i] == 'O' && n < 2)
                a[n++] = va_arg(v, PyObject *);
    va_end(v);
    return call(f, n, a[0], a[1]);
}

/* ----------------------------------------------------------- operations */
static PyObject *operation(int op, PyObject *a, PyObject *b, PyObject *c)
{
    return outcome(g_event(EV_OP, op, NULL, a, b, c));
}
#define UN(F, OP) PyObject *F(PyObject *a) \
    { return operation(OP, a, NULL, NULL); }
#define BIN(F, OP) PyObject *F(PyObject *a, PyObject *b) \
    { return operation(OP, a, b, NULL); }
#define TERN(F, OP) PyObject *F(PyObject *a, PyObject *b, PyObject *c) \
    { return operation(OP, a, b, c); }
UN(PyNumber_Negative, OP_NEG) UN(PyNumber_Positive, OP_POS)
UN(PyNumber_Absolute, OP_ABS) UN(PyNumber_Invert, OP_INVERT)
UN(PyNumber_Long, OP_INT) UN(PyNumber_Float, OP_FLOAT)
UN(PyNumber_Index, OP_INDEX) UN(PyObject_GetIter, OP_ITER)
UN(PyObject_Str, OP_STR) UN(PyObject_Repr, OP_REPR)
BIN(PyNumber_Add, OP_ADD) BIN(PyNumber_Subtract, OP_SUB)
BIN(PyNumber_Multiply, OP_MUL) BIN(PyNumber_Remainder, OP_MOD)
BIN(PyNumber_Divmod, OP_DIVMOD) BIN(PyNumber_Lshift, OP_LSHIFT)
BIN(PyNumber_Rshift, OP_RSHIFT) BIN(PyNumber_And, OP_AND)
BIN(PyNumber_Xor, OP_XOR) BIN(PyNumber_Or, OP_OR)
BIN(PyNumber_FloorDivide, OP_FLOORDIV) BIN(PyNumber_TrueDivide, OP_TRUEDIV)
BIN(PyNumber_InPlaceAdd, OP_IADD) BIN(PyNumber_InPlaceSubtract, OP_ISUB)
BIN(PyNumber_InPlaceMultiply, OP_IMUL)
BIN(PyNumber_InPlaceRemainder, OP_IMOD)
BIN(PyNumber_InPlaceLshift, OP_ILSHIFT)
BIN(PyNumber_InPlaceRshift, OP_IRSHIFT) BIN(PyNumber_InPlaceAnd, OP_IAND)
BIN(PyNumber_InPlaceXor, OP_IXOR) BIN(PyNumber_InPlaceOr, OP_IOR)
BIN(PyNumber_InPlaceFloorDivide, OP_IFLOORDIV)
BIN(PyNumber_InPlaceTrueDivide, OP_ITRUEDIV)
TERN(PyNumber_Power, OP_POW) TERN(PyNumber_InPlacePower, OP_IPOW)
BIN(PyObject_GetItem, OP_GETITEM)
TERN(PyObject_Call, OP_CALL)

PyNumberMethods g_nb;
UN(g_nb_int, OP_INT)
UN(g_nb_float, OP_FLOAT)
_Bool g_has_int, g_has_float;

void g_number_shape(void)
{
    _Bool t = nondet_bool();
    g_has_int = t && nondet_bool();
    g_has_float = t && nondet_bool();
    g_nb.nb_int = g_has_int ? g_nb_int : NULL;
    g_nb.nb_float = g_has_float ? g_nb_float : NULL;
    T_obj.tp_as_number = t ? &g_nb : NULL;
}

_Bool g_isiter;
int PyIter_Check(PyObject *o) { ALIVE(o); return g_isiter; }

PyObject *PyIter_Next(PyObject *o)
{
    event *e = g_event(EV_OP, OP_NEXT, NULL, o, NULL, NULL);
    PyObject *r = g_result();
    int c = nondet_int();
    ASSERT(g_isiter, "C23: only iterators are advanced");
    if (c == 0) {
        g_fail();
        e->err = g_errid;
        return NULL;
    }
    if (c == 1)                        /* exhausted */
        return NULL;
    Py_INCREF(r);
    e->r = r;
    return r;
}

PyObject *PyObject_RichCompare(PyObject *a, PyObject *b, int op)
{
    event *e = g_event(EV_OP, OP_RICHCMP, NULL, a, b, NULL);
    e->i = op;
    return outcome(e);
}

#define INT(F, OP, LOW) { \
    event *e = g_event(EV_OP, OP, NULL, a, b, c); \
    long i = nondet_long(); \
    ASSUME(i >= -1 && LOW); \
    return status(e, i); }
int PyObject_SetItem(PyObject *a, PyObject *b, PyObject *c)
    INT(f, OP_SETITEM, i <= 0)
int PyObject_DelItem(PyObject *a, PyObject *b)
    { PyObject *c = NULL; INT(f, OP_DELITEM, i <= 0) }
Py_ssize_t PyObject_Size(PyObject *a)
    { PyObject *b = NULL, *c = NULL; INT(f, OP_LEN, 1) }
#undef PyObject_Length
Py_ssize_t PyObject_Length(PyObject *a) { return PyObject_Size(a); }

Py_hash_t PyObject_Hash(PyObject *a)
{
    event *e = g_event(EV_OP, OP_HASH, NULL, a, NULL, NULL);
    return status(e, nondet_long());
}

int PyObject_IsTrue(PyObject *a)
{
    PyObject *b = NULL, *c = NULL;
    if (a == Py_True || a == Py_False || a == Py_None)
        return a == Py_True;
    INT(f, OP_BOOL, i <= 1)
}

extern PyObject *g_available;
int PySequence_Contains(PyObject *a, PyObject *b)
{
    if (a == g_available && g_available != NULL) {
        event *e = g_event(EV_CONTAINS, 0, NULL, a, b, NULL);
        int i = nondet_int();
        ASSUME(i >= -1 && i <= 1);
        /* only names of operators are in the list */
        gobj *s = (gobj *)b;
        if (b->ob_type != &PyUnicode_Type || s->text == NULL ||
            s->text[0] != '_' || s->text[1] != '_')
            ASSUME(i <= 0);
        return (int)status(e, i);
    }
    PyObject *c = NULL;
    INT(f, OP_CONTAINS, i <= 1)
}

int PyObject_SetAttr(PyObject *a, PyObject *b, PyObject *c)
{
    event *e = g_event(EV_OP, c ? OP_SETATTR : OP_DELATTR, NULL, a, b, c);
    return (int)status(e, nondet_bool() ? 0 : -1);
}
int PyObject_DelAttr_(PyObject *a, PyObject *b)
{
    return PyObject_SetAttr(a, b, NULL);
}

PyObject *PyObject_GetAttr(PyObject *a, PyObject *b)
{
    return outcome(g_event(EV_OP, OP_GETATTR, NULL, a, b, NULL));
}

_Bool g_hasattr;
int PyObject_HasAttr(PyObject *a, PyObject *b)
{
    event *e = g_event(EV_HASATTR, 0, NULL, a, b, NULL);
    e->i = nondet_bool();
    return (int)e->i;
}

int PyObject_IsInstance(PyObject *a, PyObject *b)
{
    event *e = g_event(EV_ISINST, 0, NULL, a, b, NULL);
    int i = nondet_int();
    ASSUME(i >= -1 && i <= 1);
    return (int)status(e, i);
}

PyObject *PyUnicode_FromFormat(const char *f, ...)
{
    PyObject *a[3] = {NULL, NULL, NULL};
    int n = 0;
    va_list v;
    va_start(v, f);
    for (int i = 0; f[i] != 0; i++)
        if (f[i] == '%' && (f[i + 1] == 'S' || f[i + 1] == 'p') && n < 3)
            a[n++] = va_arg(v, PyObject *);
    va_end(v);
    return outcome(g_event(EV_FORMAT, n, NULL, a[0], a[1], a[2]));
}

/* -------------------------------------------------------- construction */
PyObject *PyLong_FromLong(long i)
{
    PyObject *f = g_fresh(&T_obj, 0);
    NOERR;
    if (nondet_bool()) {
        g_raise(PyExc_MemoryError);
        return NULL;
    }
    ((gobj *)f)->n = (int)i;
    Py_INCREF(f);
    return f;
}
PyObject *PyLong_FromSsize_t(Py_ssize_t i) { return PyLong_FromLong(i); }

static PyObject *newtuple(int n, PyObject *a, PyObject *b, PyObject *c)
{
    gobj *t = (gobj *)g_fresh(&T_tuple, 0);
    NOERR;
    if (nondet_bool()) {
        g_raise(PyExc_MemoryError);
        return NULL;
    }
    t->kind = K_TUPLE;
    t->n = n;
    t->item[0] = a; t->item[1] = b; t->item[2] = c;
    for (int i = 0; i < 3; i++)
        if (i < n) {
            ALIVE(t->item[i]);
            Py_INCREF(t->item[i]);
            g_others(t->item[i], 1);
        }
    t->ob_base.ob_refcnt = 1;
    return (PyObject *)t;
}

PyObject *Py_BuildValue(const char *f, ...)
{
    PyObject *a[3] = {NULL, NULL, NULL};
    int n = 0;
    va_list v;
    va_start(v, f);
    for (int i = 0; f[i] != 0; i++) {
        if (f[i] == 'O' && n < 3)
            a[n++] = va_arg(v, PyObject *);
        if (f[i] == 's' && n < 3)
            a[n++] = g_string(va_arg(v, const char *));
    }
    va_end(v);
    return newtuple(n, a[0], a[1], a[2]);
}

PyObject *PyTuple_Pack(Py_ssize_t n, ...)
{
    PyObject *a[3] = {NULL, NULL, NULL};
    va_list v;
    va_start(v, n);
    for (int i = 0; i < 3; i++)
        if (i < n)
            a[i] = va_arg(v, PyObject *);
    va_end(v);
    return newtuple((int)n, a[0], a[1], a[2]);
}

PyObject *PyUnicode_FromString(const char *s) { return g_string(s); }
PyObject *PyUnicode_InternFromString(const char *s) { return g_string(s); }

static char g_utf8[] = "x";
const char *PyUnicode_AsUTF8(PyObject *o)
{
    NOERR;
    ALIVE(o);
    if (((gobj *)o)->text == NULL) {
        g_raise(nondet_bool() ? PyExc_UnicodeEncodeError :
                PyExc_MemoryError);
        return NULL;
    }
    return ((gobj *)o)->text;
}

int PyUnicode_CompareWithASCIIString(PyObject *o, const char *s)
{
    const char *t = ((gobj *)o)->text;
    return t == NULL ? 1 : strcmp(t, s);
}

/* ------------------------------------------------------------ arguments */
PyObject *g_arg[3];
int g_nargs;

static int parse(const char *f, va_list v)
{
    int n = 0;
    _Bool opt = 0, ok = 1;
    if (!g_sure && nondet_bool()) {    /* too many, wrong keywords ... */
        g_raise(PyExc_TypeError);
        return 0;
    }
    for (int i = 0; f[i] != 0 && f[i] != ':' && f[i] != ';'; i++) {
        if (f[i] == '|') opt = 1;
        if (f[i] == 'O') {
            PyTypeObject *t = NULL;
            if (f[i + 1] == '!')
                t = va_arg(v, PyTypeObject *);
            PyObject **p = va_arg(v, PyObject **);
            if (n < g_nargs) {
                if (t != NULL && !PyObject_TypeCheck(g_arg[n], t))
                    ok = 0;
                if (ok)
                    *p = g_arg[n];
            }
            else if (!opt)
                ok = 0;
            n++;
        }
    }
    if (n < g_nargs)
        ok = 0;
    if (!ok)
        g_raise(PyExc_TypeError);
    return ok;
}

int PyArg_ParseTuple(PyObject *args, const char *f, ...)
{
    va_list v;
    va_start(v, f);
    int r = parse(f, v);
    va_end(v);
    return r;
}

int PyArg_ParseTupleAndKeywords(PyObject *args, PyObject *kw, const char *f,
                                char **names, ...)
{
    va_list v;
    va_start(v, names);
    int r = parse(f, v);
    va_end(v);
    return r;
}

/* ----------------------------------------------------------------- types */
PyTypeObject *g_ready;
PyModuleDef *g_module;
static PyObject *g_modobj;

int PyType_IsSubtype(PyTypeObject *a, PyTypeObject *b)
{
    for (int i = 0; i < 4; i++) {
        if (a == b)
            return 1;
        if (a == NULL)
            return 0;
        a = a->tp_base;
    }
    return b == &PyBaseObject_Type;
}

PyObject *PyType_GenericAlloc(PyTypeObject *t, Py_ssize_t n)
{
    PyObject *o = (PyObject *)g_new(t, 0);
    ASSERT(t->tp_basicsize <= (Py_ssize_t)(sizeof(PyObject) + 16),
           "BOUND: the ghost state is large enough");
    NOERR;
    if (!g_sure && nondet_bool()) {
        g_raise(PyExc_MemoryError);
        return NULL;
    }
    o->ob_refcnt = 1;
    return o;
}

PyObject *PyType_GenericNew(PyTypeObject *t, PyObject *a, PyObject *k)
{
    return t->tp_alloc(t, 0);
}

int g_freed;
PyObject *g_freed_object;
void PyObject_GC_Del(void *o)
{
    g_freed++;
    g_freed_object = o;
}
void PyObject_GC_UnTrack(void *o) { }

int PyType_Ready(PyTypeObject *t)
{
    g_ready = t;
    t->ob_base.ob_base.ob_type = &PyType_Type;
    if (t->tp_base == NULL)
        t->tp_base = &PyBaseObject_Type;
    if (t->tp_alloc == NULL)
        t->tp_alloc = PyType_GenericAlloc;
    if (t->tp_free == NULL)
        t->tp_free = PyObject_GC_Del;
    T_sub.tp_base = t;
    T_sub.tp_basicsize = t->tp_basicsize;
    T_sub.tp_alloc = t->tp_alloc;
    T_sub.tp_free = t->tp_free;
    return 0;
}

static int base_clear(PyObject *o)
{
    PyObject **p = (PyObject **)(o + 1);
    PyObject *t = *p;
    *p = NULL;
    Py_XDECREF(t);
    return 0;
}
static void base_dealloc(PyObject *o)
{
    base_clear(o);
    PyObject_GC_Del(o);
}

/* --------------------------------------------------------------- modules */
static struct { PyTypeObject *t; int (*check)(PyObject *);
    PyObject *(*create)(PyObject *); PyObject *(*get)(PyObject *); } g_capi;
PyObject *G_Proxy, *G_thread_local, *G_CheckerPublic;
static PyObject *g_names[12], *g_values[12];
static const char *g_exportname[12];
static PyObject *g_exportvalue[12];
static int g_nexport;

PyObject *PyModule_Create2(PyModuleDef *d, int v)
{
    g_module = d;
    g_init = 1;
    T_base.tp_clear = base_clear;
    T_base.tp_dealloc = base_dealloc;
    g_capi.t = &T_base;
    g_modobj = g_fresh(&T_obj, 1);
    return g_modobj;
}

PyObject *PyImport_ImportModule(const char *name)
{
    return g_fresh(&T_obj, 2);
}

PyObject *PyObject_GetAttrString(PyObject *o, const char *name)
{
    if (!g_init)
        return PyObject_GetAttr(o, g_string(name));
    if (strcmp(name, "ForbiddenAttribute") == 0) return E_Forbidden;
    if (strcmp(name, "Unauthorized") == 0) return E_Unauthorized;
    PyObject *r = g_fresh(&T_obj, 1);
    if (strcmp(name, "_CAPI") == 0) r->ob_type = &PyCapsule_Type;
    if (strcmp(name, "_Proxy") == 0) {
        static PyTypeObject proxytype = {
            .ob_base = {.ob_base = {IMMORTAL, .ob_type = &PyType_Type}}};
        r = (PyObject *)&proxytype;
        G_Proxy = r;
    }
    if (strcmp(name, "thread_local") == 0) G_thread_local = r;
    if (strcmp(name, "CheckerPublic") == 0) G_CheckerPublic = r;
    Py_INCREF(r);
    return r;
}

void *PyCapsule_GetPointer(PyObject *o, const char *n) { return &g_capi; }
PyObject *PyList_New(Py_ssize_t n) { return g_fresh(&T_obj, 1); }

int PyModule_AddObject(PyObject *m, const char *name, PyObject *o)
{
    g_exportname[g_nexport] = name;
    g_exportvalue[g_nexport++] = o;
    return 0;
}

PyObject *g_exported(const char *name)
{
    for (int i = 0; i < g_nexport; i++)
        if (strcmp(g_exportname[i], name) == 0)
            return g_exportvalue[i];
    return NULL;
}

PyCFunction g_function(PyMethodDef *d, const char *name, int flags)
{
    for (int i = 0; d[i].ml_name != NULL; i++)
        if (strcmp(d[i].ml_name, name) == 0 && d[i].ml_flags == flags)
            return d[i].ml_meth;
    return NULL;
}

/* ---------------------------------------------------------- dictionaries */
PyObject *g_available;
PyObject *g_choices[4];

PyObject *PyDict_New(void)
{
    PyObject *f = g_fresh(&PyDict_Type, 0);
    if (!g_init && nondet_bool()) {
        g_raise(PyExc_MemoryError);
        return NULL;
    }
    f->ob_refcnt = 1;
    return f;
}

/* the value recorded for a key, or NULL: the same at every look-up */
PyObject *g_dict_value(PyObject *d, PyObject *k)
{
    for (int i = 0; i < 3; i++) {
        if (!g_entries[i].known) {
            g_entries[i].known = 1;
            g_entries[i].d = d;
            g_entries[i].k = k;
            int c = nondet_int();
            g_entries[i].v = c >= 0 && c < 4 ? g_choices[c] : NULL;
            return g_entries[i].v;
        }
        if (g_entries[i].d == d && g_entries[i].k == k)
            return g_entries[i].v;
    }
    ASSUME(0);
    return NULL;
}

PyObject *PyDict_GetItem(PyObject *d, PyObject *k)
{
    NOERR;
    ALIVE(d);
    ALIVE(k);
    return g_dict_value(d, k);
}

PyObject *PyDict_GetItemWithError(PyObject *d, PyObject *k)
{
    return PyDict_GetItem(d, k);
}
