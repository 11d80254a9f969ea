/* Contracts of the functions of _proxy.c, reached through the type's slots
   and the module's functions. */
#include "capi.h"

PyMODINIT_FUNC PyInit__proxy(void);
void g_checker_shape(void);
void g_number_shape(void);
extern _Bool g_isiter, g_has_int, g_has_float;

static PyTypeObject *T;
static PyObject *P, *W, *C;            /* a proxy, its object, its checker */
static PyObject *P2, *W2, *C2;

static void module(void)
{
    PyObject *m = PyInit__proxy();
    g_init = 0;
    g_frame_save();
    T = g_ready;
    ASSERT(m != NULL && (PyObject *)T == g_exported("_Proxy"),
           "C01: the module exports the proxy type");
    ASSERT(T->tp_base == &T_base, "C01: the proxy type extends ProxyBase");
}

static PyObject *make(PyObject **w, PyObject **c)
{
    PyObject *args = g_fresh(&T_obj, 1);
    *w = g_fresh(&T_obj, 1);
    *c = g_fresh(&T_checker, 1);
    g_arg[0] = *w;
    g_arg[1] = *c;
    g_nargs = 2;
    g_sure = 1;
    PyObject *p = T->tp_new(g_shape & 4 ? &T_sub : T, args, NULL);
    g_sure = 0;
    /* the proxy is held by others; it holds its object and its checker */
    return p;
}

#define expect g_others

static void world(void)
{
    module();
    P = make(&W, &C);
    expect(P, 1); expect(W, 1); expect(C, 1);
    g_checker_shape();
    g_number_shape();
    g_isiter = nondet_bool();
    g_pool[0] = W;
    g_pool[1] = P;
    g_npool = 2;
    ASSERT(g_err == NULL, "C23: no error is left after construction");
}

/* anything that is no proxy; or a second proxy */
static PyObject *anything(void)
{
    PyObject *o = g_fresh(&T_obj, 1);
    int c = nondet_int();
    g_pool[2] = o;
    g_npool = 3;
    return c == 0 ? W : c == 1 ? Py_None : c == 2 ? C : o;
}

static PyObject *anyproxy(void)
{
    P2 = make(&W2, &C2);
    expect(P2, 1); expect(W2, 1); expect(C2, 1);
    return nondet_bool() ? P : P2;
}

#define CHECKED(how, name) \
    (g_nlog >= 1 && g_log[0].kind == EV_CHECK && \
     (g_log[0].op == H_SLOT ? how != H_SET : g_log[0].op == how) && \
     g_log[0].who == C && g_log[0].a == W && g_istext(g_log[0].b, name))

#define NOTHING_ELSE(pid) \
    ASSERT(g_nlog == 1 && ret == NULL && g_err != NULL && \
           g_errid == g_log[0].err, \
           pid ": refused: nothing happens and the refusal is passed on")

/* the frame every slot returning an object has to keep */
static void done(PyObject *ret)
{
    ASSERT((ret == NULL) == (g_err != NULL),
           "C23: NULL is returned exactly when an error is pending");
    g_balance(ret);
}

static void idone(long ret)
{
    ASSERT((ret == -1) == (g_err != NULL),
           "C23: -1 is returned exactly when an error is pending");
    g_balance(NULL);
}

/* check, then the operation on the object itself, then protection */
static void operated(PyObject *ret, int how, const char *name, int op,
                     PyObject *a, PyObject *b, PyObject *c, _Bool absent)
{
    ASSERT(g_nlog >= 1, "C01: the checker is asked");
    ASSERT(CHECKED(how, name),
           "C01: the checker is asked for this operation on the object");
    if (g_log[0].i < 0) {
        NOTHING_ELSE("C01");
        REACH("refused");
    }
    else if (absent) {
        ASSERT(g_nlog == 1 && ret == NULL,
               "C01: an operation the object lacks is not carried out");
        REACH("lacking");
    }
    else {
        ASSERT(g_nlog >= 2 && g_log[1].kind == EV_OP && g_log[1].op == op,
               "C01: allowed: the operation asked for is carried out");
        ASSERT(g_log[1].a == a && g_log[1].b == b && g_log[1].c == c,
               "C01: allowed: on the object and the operands given");
        if (g_log[1].r == NULL) {
            ASSERT(g_nlog == 2 && ret == NULL && g_errid == g_log[1].err,
                   "C01: a failure of the object is passed on");
            REACH("failed");
        }
        else {
            ASSERT(g_nlog == 3 && g_log[2].kind == EV_PROXY &&
                   g_log[2].who == C && g_log[2].a == g_log[1].r,
                   "C02: the result is put under protection by the checker");
            ASSERT(ret == g_log[2].r && g_errid == g_log[2].err,
                   "C02: only the protected result is returned");
            if (ret != NULL)
                REACH("granted");
        }
    }
    done(ret);
}

#define UNARY(SLOT, NAME, OP) \
void h_##SLOT(void) { \
    world(); \
    PyObject *r = T->tp_as_number->SLOT(P); \
    operated(r, H_CHECK, NAME, OP, W, NULL, NULL, \
             (OP == OP_INT && !g_has_int) || \
             (OP == OP_FLOAT && !g_has_float)); \
}
UNARY(nb_negative, "__neg__", OP_NEG)
UNARY(nb_positive, "__pos__", OP_POS)
UNARY(nb_absolute, "__abs__", OP_ABS)
UNARY(nb_invert, "__invert__", OP_INVERT)
UNARY(nb_int, "__int__", OP_INT)
UNARY(nb_float, "__float__", OP_FLOAT)
UNARY(nb_index, "__index__", OP_INDEX)

#define BINARY(SLOT, NAME, RNAME, OP) \
void h_##SLOT(void) { \
    world(); \
    PyObject *o = nondet_bool() ? anything() : anyproxy(); \
    PyObject *r = T->tp_as_number->SLOT(P, o); \
    operated(r, H_CHECK, NAME, OP, W, o, NULL, 0); \
} \
void h_##SLOT##_right(void) { \
    world(); \
    PyObject *o = anything(); \
    PyObject *r = T->tp_as_number->SLOT(o, P); \
    operated(r, H_CHECK, RNAME, OP, o, W, NULL, 0); \
} \
void h_##SLOT##_neither(void) { \
    world(); \
    PyObject *o = anything(), *o2 = anything(); \
    PyObject *r = T->tp_as_number->SLOT(o, o2); \
    ASSERT(r == Py_NotImplemented && g_nlog == 0, \
           "C01: without a proxy nothing happens"); \
    done(r); \
    REACH("neither"); \
}
BINARY(nb_add, "__add__", "__radd__", OP_ADD)
BINARY(nb_subtract, "__sub__", "__rsub__", OP_SUB)
BINARY(nb_multiply, "__mul__", "__rmul__", OP_MUL)
BINARY(nb_remainder, "__mod__", "__rmod__", OP_MOD)
BINARY(nb_divmod, "__divmod__", "__rdivmod__", OP_DIVMOD)
BINARY(nb_lshift, "__lshift__", "__rlshift__", OP_LSHIFT)
BINARY(nb_rshift, "__rshift__", "__rrshift__", OP_RSHIFT)
BINARY(nb_and, "__and__", "__rand__", OP_AND)
BINARY(nb_xor, "__xor__", "__rxor__", OP_XOR)
BINARY(nb_or, "__or__", "__ror__", OP_OR)
BINARY(nb_floor_divide, "__floordiv__", "__rfloordiv__", OP_FLOORDIV)
BINARY(nb_true_divide, "__truediv__", "__rtruediv__", OP_TRUEDIV)

void h_nb_power(void) {
    world();
    PyObject *o = nondet_bool() ? anything() : anyproxy();
    PyObject *m = nondet_bool() ? Py_None : nondet_bool() ? P : o;
    PyObject *r = T->tp_as_number->nb_power(P, o, m);
    operated(r, H_CHECK, "__pow__", OP_POW, W, o, m, 0);
}
void h_nb_power_right(void) {
    world();
    PyObject *o = anything();
    PyObject *m = nondet_bool() ? Py_None : nondet_bool() ? P : o;
    PyObject *r = T->tp_as_number->nb_power(o, P, m);
    operated(r, H_CHECK, "__rpow__", OP_POW, o, W, m, 0);
}
void h_nb_power_modulus(void) {
    world();
    PyObject *o = anything(), *o2 = anything();
    PyObject *r = T->tp_as_number->nb_power(o, o2, P);
    operated(r, H_CHECK, "__3pow__", OP_POW, o, o2, W, 0);
}
void h_nb_power_neither(void) {
    world();
    PyObject *o = anything(), *o2 = anything();
    PyObject *r = T->tp_as_number->nb_power(
        o, o2, nondet_bool() ? Py_None : anything());
    ASSERT(r == Py_NotImplemented && g_nlog == 0,
           "C01: without a proxy nothing happens");
    done(r);
    REACH("neither");
}

static void inplace(PyObject *r, const char *name, int op, PyObject *o,
                    PyObject *m)
{
    if (g_nlog >= 2 && g_log[0].i == 0 && g_log[1].kind == EV_OP &&
        g_log[1].r == W) {
        ASSERT(CHECKED(H_CHECK, name),
               "C01: the checker is asked for this operation on the object");
        ASSERT(g_log[1].op == op && g_log[1].a == W && g_log[1].b == o &&
               g_log[1].c == m,
               "C01: allowed: on the object and the operands given");
        ASSERT(g_nlog == 2 && r == P,
               "C02: carried out in place: this proxy is the result");
        done(r);
        REACH("in place");
    }
    else
        operated(r, H_CHECK, name, op, W, o, m, 0);
}
#define INPL(SLOT, NAME, OP) \
void h_##SLOT(void) { \
    world(); \
    PyObject *o = nondet_bool() ? anything() : anyproxy(); \
    PyObject *r = T->tp_as_number->SLOT(P, o); \
    inplace(r, NAME, OP, o, NULL); \
}
INPL(nb_inplace_add, "__iadd__", OP_IADD)
INPL(nb_inplace_subtract, "__isub__", OP_ISUB)
INPL(nb_inplace_multiply, "__imul__", OP_IMUL)
INPL(nb_inplace_remainder, "__imod__", OP_IMOD)
INPL(nb_inplace_lshift, "__ilshift__", OP_ILSHIFT)
INPL(nb_inplace_rshift, "__irshift__", OP_IRSHIFT)
INPL(nb_inplace_and, "__iand__", OP_IAND)
INPL(nb_inplace_xor, "__ixor__", OP_IXOR)
INPL(nb_inplace_or, "__ior__", OP_IOR)
INPL(nb_inplace_floor_divide, "__ifloordiv__", OP_IFLOORDIV)
INPL(nb_inplace_true_divide, "__itruediv__", OP_ITRUEDIV)

void h_nb_inplace_power(void) {
    world();
    PyObject *o = nondet_bool() ? anything() : anyproxy();
    /* a function of two arguments may stand in this slot: the caller's
       third one is not looked at (x86-64 calling convention) */
    PyObject *r = nondet_bool() ?
        ((binaryfunc)T->tp_as_number->nb_inplace_power)(P, o) :
        T->tp_as_number->nb_inplace_power(P, o, Py_None);
    inplace(r, "__ipow__", OP_IPOW, o, Py_None);
}

/* ------------------------------------------------------- other slots */
void h_tp_iter(void) {
    world();
    PyObject *r = T->tp_iter(P);
    operated(r, H_CHECK, "__iter__", OP_ITER, W, NULL, NULL, 0);
}

void h_tp_iternext(void) {
    world();
    PyObject *r = T->tp_iternext(P);
    if (g_nlog == 2 && g_log[0].i == 0 && g_log[1].kind == EV_OP &&
        g_log[1].r == NULL && g_log[1].err == 0) {
        ASSERT(CHECKED(H_GET, "__next__"),
               "C01: the checker is asked for this operation on the object");
        ASSERT(g_log[1].op == OP_NEXT && g_log[1].a == W,
               "C01: allowed: the operation asked for is carried out");
        ASSERT(r == NULL && g_err == NULL,
               "C01: exhaustion is passed on");
        g_balance(NULL);
        REACH("exhausted");
    }
    else
        operated(r, H_GET, "__next__", OP_NEXT, W, NULL, NULL, !g_isiter);
}

void h_tp_call(void) {
    world();
    PyObject *a = g_fresh(&T_obj, 1), *k = nondet_bool() ? a : NULL;
    PyObject *r = T->tp_call(P, a, k);
    operated(r, H_CHECK, "__call__", OP_CALL, W, a, k, 0);
}

void h_mp_subscript(void) {
    world();
    PyObject *k = nondet_bool() ? anything() : P;
    PyObject *r = T->tp_as_mapping->mp_subscript(P, k);
    operated(r, H_CHECK, "__getitem__", OP_GETITEM, W, k, NULL, 0);
}

void h_tp_getattro(void) {
    world();
    PyObject *n = g_string("anything");
    PyObject *r = T->tp_getattro(P, n);
    ASSERT(g_nlog >= 1 && g_log[0].b == n,
           "C01: the checker is asked for the name");
    operated(r, H_GET, "anything", OP_GETATTR, W, n, NULL, 0);
}

static void written(int ret, const char *pid, int how, const char *name,
                    int op, PyObject *a, PyObject *b, PyObject *c)
{
    ASSERT(g_nlog >= 1, "C03: the checker is asked");
    ASSERT(CHECKED(how, name),
           "C03: the checker is asked for this write on the object");
    if (g_log[0].i < 0) {
        ASSERT(g_nlog == 1 && ret == -1 && g_errid == g_log[0].err,
               "C03: refused: nothing happens and the refusal is passed on");
        REACH("refused");
    }
    else {
        ASSERT(g_nlog == 2 && g_log[1].kind == EV_OP && g_log[1].op == op &&
               g_log[1].a == a && g_log[1].b == b && g_log[1].c == c,
               "C03: allowed: exactly the write asked for is carried out");
        ASSERT(ret == g_log[1].i && g_errid == g_log[1].err,
               "C03: the outcome of the write is passed on");
        if (ret == 0)
            REACH("granted");
    }
    idone(ret);
}

void h_tp_setattro(void) {
    world();
    PyObject *n = g_string("anything");
    PyObject *v = nondet_bool() ? anything() : P;
    int r = T->tp_setattro(P, n, v);
    ASSERT(g_nlog >= 1 && g_log[0].b == n,
           "C03: the checker is asked for the name");
    written(r, "C03", H_SET, "anything", OP_SETATTR, W, n, v);
}
void h_tp_delattro(void) {
    world();
    PyObject *n = g_string("anything");
    int r = T->tp_setattro(P, n, NULL);
    ASSERT(g_nlog >= 1 && g_log[0].b == n,
           "C03: the checker is asked for the name");
    written(r, "C03", H_SET, "anything", OP_DELATTR, W, n, NULL);
}
void h_mp_ass_subscript(void) {
    world();
    PyObject *k = nondet_bool() ? anything() : P;
    PyObject *v = nondet_bool() ? anything() : P;
    int r = T->tp_as_mapping->mp_ass_subscript(P, k, v);
    written(r, "C03", H_CHECK, "__setitem__", OP_SETITEM, W, k, v);
}
void h_mp_del_subscript(void) {
    world();
    PyObject *k = nondet_bool() ? anything() : P;
    int r = T->tp_as_mapping->mp_ass_subscript(P, k, NULL);
    written(r, "C03", H_CHECK, "__delitem__", OP_DELITEM, W, k, NULL);
}

/* an index: the key is the integer made of it, if it can be made */
static _Bool nokey(void)
{
    return g_nlog == 0 && g_err == PyExc_MemoryError;
}
void h_sq_item(void) {
    world();
    PyObject *r = T->tp_as_sequence->sq_item(P, 7);
    if (nokey()) {
        ASSERT(r == NULL, "C01: without a key nothing happens");
        done(r);
        return;
    }
    PyObject *k = g_nlog > 1 ? g_log[1].b : NULL;
    operated(r, H_CHECK, "__getitem__", OP_GETITEM, W, k, NULL, 0);
}
void h_sq_ass_item(void) {
    world();
    PyObject *v = nondet_bool() ? anything() : P;
    int r = T->tp_as_sequence->sq_ass_item(P, 7, v);
    if (nokey()) {
        ASSERT(r == -1, "C03: without a key nothing happens");
        idone(r);
        return;
    }
    written(r, "C03", H_CHECK, "__setitem__", OP_SETITEM, W,
            g_nlog > 1 ? g_log[1].b : NULL, v);
}
void h_sq_del_item(void) {
    world();
    int r = T->tp_as_sequence->sq_ass_item(P, 7, NULL);
    if (nokey()) {
        ASSERT(r == -1, "C03: without a key nothing happens");
        idone(r);
        return;
    }
    written(r, "C03", H_CHECK, "__delitem__", OP_DELITEM, W,
            g_nlog > 1 ? g_log[1].b : NULL, NULL);
}

static void counted(long ret, const char *name, int op, PyObject *b)
{
    ASSERT(CHECKED(H_CHECK, name),
           "C01: the checker is asked for this operation on the object");
    if (g_log[0].i < 0) {
        ASSERT(g_nlog == 1 && ret == -1 && g_errid == g_log[0].err,
               "C01: refused: nothing happens and the refusal is passed on");
        REACH("refused");
    }
    else {
        ASSERT(g_nlog == 2 && g_log[1].kind == EV_OP && g_log[1].op == op &&
               g_log[1].a == W && g_log[1].b == b,
               "C01: allowed: the operation asked for is carried out");
        ASSERT(ret == g_log[1].i && g_errid == g_log[1].err,
               "C01: its outcome is passed on");
        if (ret >= 0)
            REACH("granted");
    }
    idone(ret);
}
void h_mp_length(void) {
    world();
    counted(T->tp_as_mapping->mp_length(P), "__len__", OP_LEN, NULL);
}
void h_sq_length(void) {
    world();
    counted(T->tp_as_sequence->sq_length(P), "__len__", OP_LEN, NULL);
}
void h_sq_contains(void) {
    world();
    PyObject *v = nondet_bool() ? anything() : P;
    counted(T->tp_as_sequence->sq_contains(P, v), "__contains__",
            OP_CONTAINS, v);
}

/* -------------------------------------- what is never refused (C04) */
void h_nb_bool(void) {
    world();
    int r = T->tp_as_number->nb_bool(P);
    ASSERT(g_nlog == 1 && g_log[0].kind == EV_OP && g_log[0].op == OP_BOOL &&
           g_log[0].a == W && r == g_log[0].i && g_errid == g_log[0].err,
           "C04: the truth of the object, no check");
    idone(r);
    REACH("bool");
}
void h_tp_hash(void) {
    world();
    long r = T->tp_hash(P);
    ASSERT(g_nlog == 1 && g_log[0].kind == EV_OP && g_log[0].op == OP_HASH &&
           g_log[0].a == W && r == g_log[0].i && g_errid == g_log[0].err,
           "C04: the hash of the object, no check");
    idone(r);
    REACH("hash");
}
void h_tp_richcompare(void) {
    world();
    PyObject *o = nondet_bool() ? anything() : anyproxy();
    int op = nondet_int();
    ASSUME(op >= Py_LT && op <= Py_GE);
    PyObject *r = T->tp_richcompare(P, o, op);
    ASSERT(g_nlog >= 1 && g_log[0].kind == EV_OP &&
           g_log[0].op == OP_RICHCMP && g_log[0].a == W &&
           g_log[0].b == o && g_log[0].i == op,
           "C04: the object is compared, no check");
    if (g_log[0].r == NULL)
        ASSERT(g_nlog == 1 && r == NULL && g_errid == g_log[0].err,
               "C04: a failure of the object is passed on");
    else if (g_log[0].r == Py_True || g_log[0].r == Py_False) {
        ASSERT(g_nlog == 1 && r == g_log[0].r, "C04: the answer is given");
        REACH("answer");
    }
    else {
        ASSERT(g_nlog == 2 && g_log[1].kind == EV_PROXY &&
               g_log[1].who == C && g_log[1].a == g_log[0].r &&
               r == g_log[1].r && g_errid == g_log[1].err,
               "C02: any other answer is put under protection");
        REACH("protected");
    }
    done(r);
}

static void printed(PyObject *r, const char *name, int op)
{
    ASSERT(CHECKED(H_CHECK, name),
           "C04: the checker is asked whether the object may print itself");
    if (g_log[0].i == 0) {
        ASSERT(g_nlog == 2 && g_log[1].kind == EV_OP && g_log[1].op == op &&
               g_log[1].a == W && r == g_log[1].r &&
               g_errid == g_log[1].err,
               "C04: allowed: the text of the object, or its failure");
        REACH("granted");
    }
    else {
        /* __class__ of the object, __name__ and __module__ of the class,
           and a text made of them and of the address */
        ASSERT(g_nlog >= 2 && g_log[1].kind == EV_OP &&
               g_log[1].op == OP_GETATTR && g_log[1].a == W &&
               g_istext(g_log[1].b, "__class__"),
               "C04: refused: only the class of the object is asked for");
        PyObject *k = g_log[1].r;
        ASSERT(g_errid != g_log[0].err,
               "C04: the refusal itself is never passed on");
        if (k == NULL)
            ASSERT(g_nlog == 2 && r == NULL && g_errid == g_log[1].err,
                   "C04: without a class there is no text");
        else {
            PyObject *name_ = NULL, *module_ = NULL;
            for (int i = 2; i < 5; i++)
                if (i < g_nlog && g_log[i].kind != EV_FORMAT) {
                    ASSERT(g_log[i].kind == EV_OP &&
                           g_log[i].op == OP_GETATTR && g_log[i].a == k &&
                           (g_istext(g_log[i].b, "__name__") ||
                            g_istext(g_log[i].b, "__module__")),
                           "C04: refused: only names of the class are used");
                    if (g_istext(g_log[i].b, "__name__"))
                        name_ = g_log[i].r;
                    else
                        module_ = g_log[i].r;
                }
            event *f = &g_log[g_nlog - 1];
            if (f->kind == EV_FORMAT) {
                ASSERT(r == f->r && g_errid == f->err,
                       "C04: the text made is returned");
                ASSERT(f->op == 3 ? f->a == module_ && f->b == name_ &&
                       f->c == W && module_ != NULL :
                       f->op == 2 && f->a == name_ && f->b == W &&
                       module_ == NULL,
                       "C04: it tells the class and the address only");
                ASSERT(name_ != NULL, "C04: it tells the class");
                REACH("anonymous");
            }
            else
                ASSERT(r == NULL && name_ == NULL,
                       "C04: only a class without a name has no text");
        }
    }
    done(r);
}
void h_tp_str(void) { world(); printed(T->tp_str(P), "__str__", OP_STR); }
void h_tp_repr(void) { world(); printed(T->tp_repr(P), "__repr__", OP_REPR); }

void h_length_hint(void) {
    world();
    PyCFunction f = g_function(T->tp_methods, "__length_hint__", METH_NOARGS);
    ASSERT(f != NULL, "C04: there is a length hint");
    ASSUME(f != NULL);
    /* declared with or without its unused second argument */
    PyObject *r = nondet_bool() ? ((unaryfunc)f)(P) : f(P, NULL);
    ASSERT(g_nlog == 1 && g_log[0].kind == EV_OP &&
           g_log[0].op == OP_LENGTH_HINT && g_log[0].a == W,
           "C04: only the object's own hint is asked for");
    if (g_log[0].r != NULL)
        ASSERT(r == g_log[0].r, "C04: the hint is given");
    else
        ASSERT(r == Py_NotImplemented ||
               (r == NULL && g_errid == g_log[0].err),
               "C04: no hint, or the failure of the object");
    done(r);
    REACH("hint");
}

/* ---------------------------------------- construction, identity (C22) */
void h_tp_new(void) {
    module();
    PyObject *args = g_fresh(&T_obj, 1);
    PyObject *w = g_fresh(&T_obj, 1), *c = g_fresh(&T_checker, 1);
    g_nargs = nondet_int();
    ASSUME(g_nargs >= 0 && g_nargs <= 3);
    g_arg[0] = nondet_bool() ? w : Py_None;
    g_arg[1] = nondet_bool() ? c : nondet_bool() ? Py_None : w;
    g_arg[2] = w;
    PyObject *p = T->tp_new(T, args, NULL);
    if (p != NULL) {
        ASSERT(g_nargs == 2 && g_arg[1] != Py_None,
               "C22: a proxy always has a checker");
        PyCFunction gc = g_function(g_module->m_methods, "getChecker",
                                    METH_O);
        PyCFunction go = g_function(g_module->m_methods, "getObject",
                                    METH_O);
        PyObject *a1 = go(NULL, p), *a2 = gc(NULL, p);
        ASSERT(a1 == g_arg[0] && a2 == g_arg[1],
               "C22: the trusted functions give its object and checker");
        Py_DECREF(a1);
        Py_DECREF(a2);
        expect(g_arg[0], 1);
        expect(g_arg[1], 1);
        REACH("made");
    }
    else if (g_nargs == 2 && g_arg[1] == Py_None) {
        ASSERT(g_err != NULL, "C22: a proxy always has a checker");
        REACH("no checker");
    }
    ASSERT(g_nlog == 0, "C22: construction runs no other code");
    done(p);
}

void h_tp_init(void) {
    world();
    PyObject *a = anything();
    int r = T->tp_init(P, a, nondet_bool() ? a : NULL);
    ASSERT(r == 0 && g_nlog == 0, "C22: initialising again changes nothing");
    PyCFunction gc = g_function(g_module->m_methods, "getChecker", METH_O);
    PyCFunction go = g_function(g_module->m_methods, "getObject", METH_O);
    PyObject *a1 = go(NULL, P), *a2 = gc(NULL, P);
    ASSERT(a1 == W && a2 == C, "C22: a proxy cannot be altered");
    Py_DECREF(a1);
    Py_DECREF(a2);
    idone(0);
    REACH("init");
}

void h_getChecker(void) {
    world();
    PyCFunction gc = g_function(g_module->m_methods, "getChecker", METH_O);
    _Bool is = nondet_bool();
    PyObject *o = is ? P : anything();
    PyObject *r = gc(NULL, o);
    ASSERT(g_nlog == 0, "C22: no code of the object runs");
    if (is) {
        ASSERT(r == C, "C22: the checker of a proxy");
        REACH("proxy");
    }
    else {
        ASSERT(r == NULL && g_err == PyExc_TypeError,
               "C22: what is no proxy has no checker");
        REACH("other");
    }
    done(r);
}

void h_getObject(void) {
    world();
    PyCFunction go = g_function(g_module->m_methods, "getObject", METH_O);
    _Bool is = nondet_bool();
    PyObject *o = is ? P : anything();
    PyObject *r = go(NULL, o);
    ASSERT(g_nlog == 0, "C22: no code of the object runs");
    ASSERT(r == (is ? W : o), "C22: the object of a proxy, or itself");
    done(r);
    REACH("object");
}

/* ------------------------------------------------------- memory (C23) */
extern int g_freed;
extern PyObject *g_freed_object;
void h_tp_dealloc(void) {
    world();
    T->tp_dealloc(P);
    ASSERT(g_freed == 1 && g_freed_object == P,
           "C23: the memory of the proxy is released once");
    ASSERT(W->ob_refcnt == 1 && C->ob_refcnt == 1,
           "C23: what it held is released");
    ASSERT(g_nlog == 0 && g_err == NULL, "C23: nothing else happens");
    REACH("released");
}

static int v_w, v_c, v_other, v_stop;
static int visit(PyObject *o, void *arg)
{
    ASSERT(arg == (void *)&v_stop, "C23: the visitor gets its argument");
    if (o == W) v_w++;
    else if (o == C) v_c++;
    else v_other++;
    return v_stop;
}
void h_tp_traverse(void) {
    world();
    v_stop = nondet_bool();
    int r = T->tp_traverse(P, visit, &v_stop);
    if (v_stop)
        ASSERT(r == v_stop && v_w + v_c == 1 && v_other == 0,
               "C23: the visitor can stop");
    else {
        ASSERT(r == 0 && v_w == 1 && v_c == 1 && v_other == 0,
               "C23: what the proxy holds is visited, once");
        REACH("visited");
    }
    g_balance(NULL);
}
