/* Contracts of the functions of _zope_security_checker.c, reached through
   the type's slots and methods and the module's functions. */
#include "capi.h"

PyMODINIT_FUNC PyInit__zope_security_checker(void);

static PyTypeObject *T;
static PyObject *S, *D, *DS;   /* a checker, its tables (NULL: none given) */
static PyObject *PERM;         /* a permission, held by a table only */
static PyObject *OBJ, *NAME;
static PyObject *noproxy, *dflt, *registry;

static void module(void)
{
    PyObject *m = PyInit__zope_security_checker();
    g_init = 0;
    g_frame_save();
    T = g_ready;
    ASSERT(m != NULL && (PyObject *)T == g_exported("Checker"),
           "C05: the module exports the checker type");
    noproxy = g_exported("NoProxy");
    dflt = g_exported("_defaultChecker");
    registry = g_exported("_checkers");
    g_available = g_exported("_available_by_default");
    ASSERT(noproxy && dflt && registry && g_available &&
           dflt->ob_type == T && registry->ob_type == &PyDict_Type,
           "C08: the module exports the registry and its default");
    /* held for good */
    g_others(noproxy, noproxy->ob_refcnt - ((gobj *)noproxy)->exp);
    g_others(dflt, dflt->ob_refcnt - ((gobj *)dflt)->exp);
    g_others(registry, registry->ob_refcnt - ((gobj *)registry)->exp);
    g_others(g_available, g_available->ob_refcnt -
             ((gobj *)g_available)->exp);
    for (int i = 0; i < g_n; i++)      /* so is what was imported */
        g_obj[i]->exp = g_obj[i]->ob_base.ob_refcnt;
    ASSERT(g_err == NULL, "C23: no error is left by the initialisation");
}

/* shape 1: a read table was given, 2: and a write table, 4: a subclass */
static void world(void)
{
    PyObject *args;
    module();
    args = g_fresh(&T_obj, 1);
    OBJ = g_fresh(&T_obj, 1);
    PERM = g_fresh(&T_obj, 1);
    g_sure = 1;
    S = T->tp_new(g_shape & 4 ? &T_sub : T, args, NULL);
    if (g_shape & 1) {
        D = g_fresh(&PyDict_Type, 1);
        DS = g_shape & 2 ? g_fresh(&PyDict_Type, 1) : NULL;
        g_arg[0] = D;
        g_arg[1] = DS;
        g_nargs = DS != NULL ? 2 : 1;
        int r = T->tp_init(S, args, NULL);
        ASSERT(r == 0, "C05: two tables make a checker");
        g_others(D, 1);
        if (DS != NULL) g_others(DS, 1);
    }
    g_sure = 0;
    g_others(S, 1);
    g_choices[0] = G_CheckerPublic;
    g_choices[1] = Py_None;
    g_choices[2] = PERM;
    g_pool[0] = OBJ;
    g_npool = 1;
    ASSERT(g_nlog == 0 && g_err == NULL, "C05: construction only records");
}

static void name(void)
{
    int c = nondet_int();
    if (c == 0) NAME = g_string("__iter__");
    else if (c == 1) NAME = g_string("__name");
    else if (c == 2) NAME = g_string("name");
    else if (c == 3) NAME = g_string("_name");
    else if (c == 4) NAME = g_string(NULL);
    else NAME = g_fresh(&T_obj, 1);
    if (c <= 4 && nondet_bool())
        NAME->ob_type = &T_substr;      /* of a subclass of str */
}

static void decision(const char *what);

static _Bool is_tuple(PyObject *v, int n, PyObject *a, PyObject *b,
                      PyObject *c)
{
    gobj *t = (gobj *)v;
    return v != NULL && v->ob_type == &T_tuple && t->n == n &&
        t->item[0] == a && t->item[1] == b && (n < 3 || t->item[2] == c);
}

/* the policy decides on a permission */
#define PERMISSION(PID, ret, perm) do { \
    ASSERT(g_nlog >= 1 && g_log[0].kind == EV_OP && \
           g_log[0].op == OP_GETATTR && g_log[0].a == G_thread_local && \
           g_istext(g_log[0].b, "interaction"), \
           PID ": the interaction of this thread is asked"); \
    if (g_log[0].r == NULL) { \
        ASSERT(ret == -1 && g_nlog == 1 && g_errid == g_log[0].err, \
               PID ": without an interaction nothing is granted"); \
        REACH("no interaction"); \
    } \
    else { \
        ASSERT(g_nlog >= 2 && g_log[1].kind == EV_CALLM && \
               g_log[1].who == g_log[0].r && g_log[1].op == 2 && \
               g_istext(g_log[1].a, "checkPermission") && \
               g_log[1].b == perm && g_log[1].c == OBJ, \
               PID ": it is asked for the permission on the object"); \
        PyObject *v = g_log[1].r; \
        if (v == NULL) \
            ASSERT(ret == -1 && g_nlog == 2 && g_errid == g_log[1].err, \
                   PID ": a failure of the policy is passed on"); \
        else { \
            long yes = v == Py_True; \
            if (v != Py_True && v != Py_False && v != Py_None) { \
                ASSERT(g_nlog == 3 && g_log[2].kind == EV_OP && \
                       g_log[2].op == OP_BOOL && g_log[2].a == v, \
                       PID ": the truth of the answer counts"); \
                yes = g_log[2].i; \
            } \
            else \
                ASSERT(g_nlog == 2, PID ": nothing else happens"); \
            if (yes > 0) { \
                ASSERT(ret == 0, PID ": allowed by the policy: granted"); \
                REACH("allowed"); \
            } \
            else if (yes < 0) \
                ASSERT(ret == -1 && g_errid == g_log[2].err, \
                       PID ": an answer without truth grants nothing"); \
            else { \
                ASSERT(ret == -1 && (g_err == PyExc_MemoryError || \
                       (g_err == E_Unauthorized && \
                        is_tuple(g_errval, 3, OBJ, NAME, perm))), \
                       PID ": refused by the policy: Unauthorized"); \
                if (g_err == E_Unauthorized) REACH("unauthorized"); \
            } \
        } \
    } \
} while (0)

#define FORBIDDEN(PID, ret) do { \
    ASSERT(ret == -1 && (g_err == PyExc_MemoryError || \
           (g_err == E_Forbidden && \
            is_tuple(g_errval, 2, NAME, OBJ, NULL))), \
           PID ": a name without a permission is forbidden"); \
    if (g_err == E_Forbidden) REACH("forbidden"); \
} while (0)

static void read_decided(int ret, PyObject *p)
{
    if (p == G_CheckerPublic) {
        ASSERT(ret == 0 && g_nlog == 0, "C05: public names are granted");
        REACH("public");
    }
    else if (p != NULL && p != Py_None)
        PERMISSION("C05", ret, p);
    else {
        int k = 0;
        _Bool str = PyUnicode_Check(NAME);
        const char *t = str ? ((gobj *)NAME)->text : NULL;
        if (g_nlog > 0 && g_log[0].kind == EV_CONTAINS) {
            ASSERT(g_log[0].a == g_available && g_log[0].b == NAME,
                   "C05: the names available by default are looked up");
            k = 1;
        }
        else
            ASSERT(t == NULL || t[0] != '_' || t[1] != '_',
                   "C05: operators may be available by default");
        if (k == 1 && g_log[0].i < 0)
            ASSERT(ret == -1 && g_nlog == 1 && g_errid == g_log[0].err,
                   "C05: a failing look-up grants nothing");
        else if (k == 1 && g_log[0].i > 0) {
            ASSERT(ret == 0 && g_nlog == 1,
                   "C05: what is available by default is granted");
            REACH("default");
        }
        else if (g_istext(NAME, "__iter__")) {
            ASSERT(g_nlog == k + 1 && g_log[k].kind == EV_HASATTR &&
                   g_log[k].a == OBJ && g_log[k].b == NAME,
                   "C05: is the object iterable?");
            if (g_log[k].i)
                FORBIDDEN("C05", ret);
            else {
                ASSERT(ret == 0, "C05: __iter__ of what has none");
                REACH("no iter");
            }
        }
        else {
            ASSERT(g_nlog == k, "C05: nothing else happens");
            FORBIDDEN("C05", ret);
        }
    }
}

static void write_decided(int ret, PyObject *p)
{
    if (p == G_CheckerPublic) {
        ASSERT(ret == 0 && g_nlog == 0, "C06: public names are granted");
        REACH("public");
    }
    else if (p != NULL && p != Py_None)
        PERMISSION("C06", ret, p);
    else {
        ASSERT(g_nlog == 0, "C06: nothing else happens");
        FORBIDDEN("C06", ret);
    }
}

static void finish(_Bool failed)
{
    ASSERT(failed == (g_err != NULL),
           "C23: failure is reported exactly when an error is pending");
}

void h_check_slot(void) {
    world();
    name();
    PyObject *p = D != NULL ? g_dict_value(D, NAME) : NULL;
    g_droppable = p == PERM ? PERM : NULL;
    int r = T->tp_as_mapping->mp_ass_subscript(S, OBJ, NAME);
    read_decided(r, p);
    finish(r == -1);
    g_balance(NULL);
}

static void by_method(const char *m, _Bool write)
{
    world();
    name();
    PyCFunction f = g_function(T->tp_methods, m, METH_VARARGS);
    ASSERT(f != NULL, "C05: the methods of a checker are there");
    ASSUME(f != NULL);
    PyObject *d = write ? DS : D;
    PyObject *p = d != NULL ? g_dict_value(d, NAME) : NULL;
    g_droppable = p == PERM ? PERM : NULL;
    g_arg[0] = OBJ;
    g_arg[1] = NAME;
    g_nargs = nondet_bool() ? 2 : 1;
    PyObject *args = g_fresh(&T_obj, 1);
    PyObject *r = f(S, args);
    ASSERT(r == NULL || r == Py_None, "C05: a check gives nothing back");
    if (g_nlog == 0 && g_err == PyExc_TypeError) {
        ASSERT(r == NULL, "C05: a check takes an object and a name");
        REACH("arguments");
    }
    else {
        ASSERT(g_nargs == 2, "C05: a check takes an object and a name");
        if (write)
            write_decided(r != NULL ? 0 : -1, p);
        else
            read_decided(r != NULL ? 0 : -1, p);
    }
    finish(r == NULL);
    g_balance(r);
}
void h_check(void) { by_method("check", 0); }
void h_check_getattr(void) { by_method("check_getattr", 0); }
void h_check_setattr(void) { by_method("check_setattr", 1); }

void h_check_del(void) {
    world();
    int r = T->tp_as_mapping->mp_ass_subscript(S, OBJ, NULL);
    ASSERT(r == -1 && g_nlog == 0 && g_err == PyExc_TypeError,
           "C23: a checker does not support item deletion");
    g_balance(NULL);
    REACH("no deletion");
}

static void by_id(const char *m, _Bool write)
{
    world();
    name();
    PyCFunction f = g_function(T->tp_methods, m, METH_O);
    ASSERT(f != NULL, "C05: the methods of a checker are there");
    ASSUME(f != NULL);
    PyObject *d = write ? DS : D;
    PyObject *p = d != NULL ? g_dict_value(d, NAME) : NULL;
    PyObject *r = f(S, NAME);
    if (write)
        ASSERT(r == (p != NULL ? p : Py_None) && g_nlog == 0,
               "C06: the permission recorded for writing, or None");
    else
        ASSERT(r == (p != NULL ? p : Py_None) && g_nlog == 0,
               "C05: the permission recorded for reading, or None");
    if (r == PERM)
        REACH("permission");
    finish(r == NULL);
    g_balance(r);
}
void h_permission_id(void) { by_id("permission_id", 0); }
void h_setattr_permission_id(void) { by_id("setattr_permission_id", 1); }

/* --------------------------------------------------------- the tables */
static getter getter_of(const char *n)
{
    for (int i = 0; T->tp_getset[i].name != NULL; i++)
        if (strcmp(T->tp_getset[i].name, n) == 0) {
            ASSERT(T->tp_getset[i].set == NULL,
                   "C22: the tables cannot be replaced");
            return T->tp_getset[i].get;
        }
    return NULL;
}
static void table(const char *n, PyObject *d)
{
    getter g = getter_of(n);
    ASSERT(g != NULL, "C05: a checker shows its tables");
    ASSUME(g != NULL);
    PyObject *r = g(S, NULL);
    if (d != NULL)
        ASSERT(r == d, "C05: the table given is the table used");
    else if (r != NULL) {
        ASSERT(r->ob_type == &PyDict_Type, "C05: without one it is empty");
        g_others(r, 1);
        PyObject *r2 = g(S, NULL);
        ASSERT(r2 == r, "C05: and stays the same");
        Py_DECREF(r2);
        REACH("created");
    }
    else
        ASSERT(g_err == PyExc_MemoryError, "C05: without one it is empty");
    ASSERT(g_nlog == 0, "C05: nothing else happens");
    finish(r == NULL);
    g_balance(r);
}
void h_get_permissions(void) { world(); table("get_permissions", D); }
void h_set_permissions(void) { world(); table("set_permissions", DS); }

static PyObject *perhaps(PyObject *a, PyObject *b)
{
    int c = nondet_int();
    return c == 0 ? a : c == 1 ? b : OBJ;
}
void h_tp_init(void) {
    world();
    PyObject *args = g_fresh(&T_obj, 1);
    PyObject *a = g_fresh(&PyDict_Type, 1), *b = g_fresh(&PyDict_Type, 1);
    g_arg[0] = perhaps(a, b);
    g_arg[1] = perhaps(a, b);
    g_arg[2] = a;
    g_nargs = nondet_int();
    ASSUME(g_nargs >= 0 && g_nargs <= 3);
    int r = T->tp_init(S, args, NULL);
    if (r == 0) {
        ASSERT((g_nargs == 1 || g_nargs == 2) && g_arg[0] != OBJ &&
               (g_nargs == 1 || g_arg[1] != OBJ),
               "C05: only dictionaries make a checker");
        /* the old tables are let go, the new ones kept */
        if (D != NULL) g_others(D, -1);
        if (DS != NULL) g_others(DS, -1);
        g_others(g_arg[0], 1);
        if (g_nargs == 2) g_others(g_arg[1], 1);
        PyObject *d = getter_of("get_permissions")(S, NULL);
        ASSERT(d == g_arg[0], "C05: the table given is the table used");
        Py_DECREF(d);
        if (g_nargs == 2) {
            PyObject *ds = getter_of("set_permissions")(S, NULL);
            ASSERT(ds == g_arg[1], "C06: the table given is the table used");
            Py_DECREF(ds);
        }
        REACH("made");
    }
    else {
        ASSERT(r == -1 && g_err == PyExc_TypeError,
               "C05: anything else is a TypeError");
        REACH("refused");
    }
    ASSERT(g_nlog == 0, "C05: nothing else happens");
    finish(r == -1);
    g_balance(NULL);
}

extern int g_freed;
extern PyObject *g_freed_object;
void h_tp_dealloc(void) {
    world();
    T->tp_dealloc(S);
    ASSERT(g_freed == 1 && g_freed_object == S,
           "C23: the memory of the checker is released once");
    ASSERT((D == NULL || D->ob_refcnt == 1) &&
           (DS == NULL || DS->ob_refcnt == 1),
           "C23: what it held is released");
    ASSERT(g_nlog == 0 && g_err == NULL, "C23: nothing else happens");
    REACH("released");
}
void h_tp_clear(void) {
    world();
    int r = T->tp_clear(S);
    ASSERT(r == 0 && (D == NULL || D->ob_refcnt == 1) &&
           (DS == NULL || DS->ob_refcnt == 1),
           "C23: what it held is released");
    if (D != NULL) g_others(D, -1);
    if (DS != NULL) g_others(DS, -1);
    finish(0);
    g_balance(NULL);
    REACH("cleared");
}
static int v_d, v_s, v_other, v_stop;
static int visit(PyObject *o, void *arg)
{
    ASSERT(arg == (void *)&v_stop, "C23: the visitor gets its argument");
    if (o == D) v_d++;
    else if (o == DS) v_s++;
    else v_other++;
    return v_stop;
}
void h_tp_traverse(void) {
    world();
    v_stop = nondet_bool() ? -1 : 0;
    int r = T->tp_traverse(S, visit, &v_stop);
    if (v_stop && D != NULL)
        ASSERT(r == v_stop && v_d + v_s == 1 && v_other == 0,
               "C23: the visitor can stop");
    else
        ASSERT(r == 0 && v_d == (D != NULL) && v_s == (DS != NULL) &&
               v_other == 0, "C23: what the checker holds is visited, once");
    REACH("visited");
    g_balance(NULL);
}

/* --------------------------------------- selection and protection */
static PyObject *V, *INST, *FACT;

static void scene(void)
{
    world();
    _Bool sub = g_shape & 2;
    INST = g_fresh(sub ? &T_sub : T, 1);
    FACT = g_fresh(&T_obj, 1);
    V = g_fresh(&T_obj, 1);
    g_choices[0] = noproxy;
    g_choices[1] = dflt;
    g_choices[2] = INST;
    g_choices[3] = FACT;
    g_pool[0] = V;
    g_pool[1] = noproxy;
    g_pool[2] = INST;
    g_pool[3] = dflt;
    g_npool = 4;
}

/* The loop that resolves a checker, cut at its head.  The invariant: of the
   chain the last element, g_cur, is owned by the function, once; nothing
   else is.  (That is: a variable which held the element at the first arrival
   holds it at every one, and all others stay as they are, but for those in
   g_weak, which may be anything.) */
static PyObject *g_cur, *g_new_;   /* the element, and what replaces it */
static int g_heads, g_where, g_loop;
static PyObject *g_start, *g_vars[8], *g_fields[4];
static long g_numbers[8];
static _Bool g_element[8];

static void owned(PyObject *x)
{
    _Bool ok = g_err == NULL && g_errval == NULL;
    for (int i = 0; i < MAXOBJ; i++)
        if (i < g_n && g_alive[i])
            ok = ok && g_obj[i]->ob_base.ob_refcnt ==
                g_obj[i]->exp + ((PyObject *)g_obj[i] == x);
    __CPROVER_assert(ok, "BOUND: one reference is owned at the loop's head");
}

void g_head_begin(int loop)
{
    if (!g_cut || g_init)
        return;
    if (g_heads == 0) {
        g_cur = g_start;
        if (g_nlog > 0 && g_log[g_nlog - 1].kind == EV_CALL)
            g_cur = g_log[g_nlog - 1].r;
        g_where = g_nlog;
        g_loop = loop;
        ASSUME(g_cur != NULL);
        owned(g_cur);
        __CPROVER_assert(g_cur != Py_None && g_cur != noproxy,
                         "BOUND: a checker is to be resolved");
        for (int i = 0; i < 2; i++) {
            g_fields[i] = ((gobj *)S)->field[i];
            g_fields[2 + i] = ((gobj *)INST)->field[i];
        }
        g_new_ = g_result();
        if (nondet_bool())
            g_new_ = FACT;
        ASSUME(g_new_ != Py_None && g_new_ != noproxy);
        Py_INCREF(g_new_);
        Py_DECREF(g_cur);
        g_droppable = g_new_->ob_type == &T_obj && g_new_ != V &&
            !_Py_IsImmortal(g_new_) && ((gobj *)g_new_)->exp > 0 ?
            g_new_ : NULL;
        REACH("loop");
    }
    else {
        __CPROVER_assert(loop == g_loop, "BOUND: one loop");
        __CPROVER_assert(
            g_nlog == g_where + 1 && g_log[g_where].kind == EV_CALL &&
            g_log[g_where].who == g_new_ && g_log[g_where].op == 1 &&
            g_log[g_where].a == V && g_log[g_where].r != NULL,
            "BOUND: each time round the element is called with the object");
        g_cur = g_log[g_where].r;
        owned(g_cur);
        __CPROVER_assert(g_cur != Py_None && g_cur != noproxy,
                         "BOUND: a checker is to be resolved");
        for (int i = 0; i < 2; i++)
            __CPROVER_assert(g_fields[i] == ((gobj *)S)->field[i] &&
                             g_fields[2 + i] == ((gobj *)INST)->field[i],
                             "BOUND: checkers keep their tables");
    }
    g_heads++;
}

#define SAME(c) do { switch (i) { \
    case 0: __CPROVER_assert(c, "BOUND: loop variable 0"); break; \
    case 1: __CPROVER_assert(c, "BOUND: loop variable 1"); break; \
    case 2: __CPROVER_assert(c, "BOUND: loop variable 2"); break; \
    case 3: __CPROVER_assert(c, "BOUND: loop variable 3"); break; \
    default: __CPROVER_assert(c, "BOUND: loop variable 4"); } } while (0)

void g_head_pointer(int i, PyObject **p)
{
    PyObject *any;
    if (!g_cut || g_init)
        return;
    if (g_weak >> i & 1)
        *p = any;
    else if (g_heads == 1) {
        g_element[i] = *p == g_cur && g_cur != V;
        if (g_element[i])
            *p = g_new_;
        g_vars[i] = *p;
    }
    else
        SAME(*p == (g_element[i] ? g_cur : g_vars[i]));
}

void g_head_number(int i, long v)
{
    if (!g_cut || g_init)
        return;
    if (g_heads == 1)
        g_numbers[i] = v;
    else
        SAME(v == g_numbers[i]);
}

void g_head_end(void)
{
    if (!g_cut || g_init)
        return;
    if (g_heads > 1) {
        REACH("step");
        ASSUME(0);
    }
}

/* *k: the events so far.  What is to be selected, or NULL: it failed;
   Py_None: nothing */
static PyObject *selection(PyObject *c, int *k)
{
    if (c == NULL)
        c = dflt;
    if (c == noproxy)
        return Py_None;
    if (c == dflt) {
        ASSERT(g_nlog > *k && g_log[*k].kind == EV_ISINST &&
               g_log[*k].a == V && g_log[*k].b == PyExc_Exception,
               "C08: an exception has no default checker");
        long i = g_log[*k].i;
        ++*k;
        if (i < 0)
            return NULL;
        if (i > 0)
            return Py_None;
    }
    for (int n = 0; n < 4; n++) {
        if (g_heads == 1 && *k == g_where) {
            ASSERT(c == g_cur, "BOUND: the loop starts with the checker");
            c = g_new_;
        }
        if (c == INST || c == dflt)
            return c;
        ASSERT(g_nlog > *k && g_log[*k].kind == EV_CALL &&
               g_log[*k].who == c && g_log[*k].op == 1 &&
               g_log[*k].a == V,
               "C08: what is no checker is called with the object");
        c = g_log[*k].r;
        ++*k;
        if (c == NULL)
            return NULL;
        if (c == noproxy || c == Py_None)
            return Py_None;
    }
    ASSUME(0);
    return NULL;
}

void h_selectChecker(void) {
    scene();
    PyCFunction f = g_function(g_module->m_methods, "selectChecker", METH_O);
    ASSERT(f != NULL, "C08: the module selects checkers");
    ASSUME(f != NULL);
    PyObject *e = g_dict_value(registry, (PyObject *)V->ob_type);
    g_droppable = e == FACT ? FACT : e == INST ? INST : NULL;
    g_start = e != NULL ? e : dflt;
    g_maxcall = 3;
    PyObject *r = f(NULL, V);
    int k = 0;
    PyObject *s = selection(e, &k);
    ASSERT(g_nlog == k, "C08: nothing else happens");
    ASSERT(r == s, "C08: the registered checker is selected, or nothing");
    if (s == NULL)
        ASSERT(g_errid == g_log[k - 1].err, "C08: a failure is passed on");
    else if (s == Py_None)
        REACH("nothing");
    else
        REACH("selected");
    finish(r == NULL);
    g_balance(r);
}

static void protected(_Bool slot)
{
    scene();
    PyCFunction f = g_function(T->tp_methods, "proxy", METH_O);
    ASSERT(f != NULL, "C07: a checker protects values");
    ASSUME(f != NULL);
    _Bool is = nondet_bool();
    if (is)
        V->ob_type = (PyTypeObject *)G_Proxy;
    PyObject *e = is ? NULL :
        g_dict_value(registry, (PyObject *)V->ob_type);
    g_start = e != NULL ? e : dflt;
    g_maxcall = 3;
    PyObject *r = slot ? T->tp_as_mapping->mp_subscript(S, V) : f(S, V);
    if (is) {
        ASSERT(r == V && g_nlog == 0, "C07: a proxy is not wrapped again");
        REACH("proxy");
    }
    else {
        int k = 1;
        ASSERT(g_nlog >= 1 && g_log[0].kind == EV_OP &&
               g_log[0].op == OP_GETATTR && g_log[0].a == V &&
               g_istext(g_log[0].b, "__Security_checker__"),
               "C07: the value may bring its own checker");
        PyObject *s = g_log[0].r;
        if (s == Py_None) {
            ASSERT(g_nlog == 1 && r == NULL &&
                   (g_err == PyExc_ValueError || g_err == PyExc_MemoryError),
                   "C07: None is no checker");
            REACH("none");
        }
        else {
            _Bool own = s != NULL;
            if (!own)
                s = selection(e, &k);
            if (s == NULL)
                ASSERT(r == NULL && g_nlog == k &&
                       g_errid == g_log[k - 1].err,
                       "C07: a failing selection is passed on");
            else if (s == Py_None) {
                ASSERT(r == V && g_nlog == k,
                       "C07: what needs no protection is returned");
                REACH("bare");
            }
            else {
                ASSERT(g_nlog == k + 1 && g_log[k].kind == EV_CALL &&
                       g_log[k].who == G_Proxy && g_log[k].op == 2 &&
                       g_log[k].a == V && g_log[k].b == s,
                       "C07: the value is wrapped with its checker");
                ASSERT(r == g_log[k].r && g_errid == g_log[k].err,
                       "C07: the proxy made is returned");
                if (own)
                    REACH("own");
                else
                    REACH("wrapped");
            }
        }
    }
    finish(r == NULL);
    g_balance(r);
}
void h_proxy(void) { protected(0); }
void h_proxy_slot(void) { protected(1); }
