"""The hook object bound to ``__vc__`` in instrumented modules."""
import builtins
import operator
import collections
import sys
import types
import z3
from . import sym
from .sym import (SymObj, SymStr, SymInt, SymExc, SymMethod, Splice, VDict,
                  VList, EngineExc, is_sym, has_abs, st_of, strt)

_bi_isinstance = isinstance


def _real(x, cls):
    return issubclass(type(x), cls)


_BM = types.BuiltinMethodType
_WD = (types.WrapperDescriptorType, types.MethodDescriptorType,
       types.ClassMethodDescriptorType, types.MethodWrapperType)


def _absargs(a, k):
    for x in a:
        if has_abs(x):
            return True
    for x in k.values():
        if has_abs(x):
            return True
    return False


class Models:
    """Models of builtins applied to symbolic values."""

    def __init__(self):
        self.m = {}

    def add(self, f):
        def deco(g):
            self.m[id(f)] = (f, g)
            return g
        return deco

    def get(self, f):
        r = self.m.get(id(f))
        return None if r is None or r[0] is not f else r[1]


MODELS = Models()
model = MODELS.add


@model(isinstance)
def m_isinstance(x, cls):
    P = sym.CUR
    if type(cls) is tuple:
        for c in cls:
            if m_isinstance(x, c):
                return True
        return False
    if type(cls) is SymObj:
        if P.same(m_type(x), cls) is True:
            return True
        raise P.unsupported('isinstance with a symbolic class')
    if type(x) is SymStr:
        return issubclass(str, cls)
    if type(x) is SymInt:
        return issubclass(int, cls)
    if _real(x, SymExc):
        return P.excmatch(x, cls)
    if type(x) is SymObj:
        if not _real(cls, type):
            raise P.unsupported('isinstance with a non-type')
        return P.inst(x, cls)
    return isinstance(x, cls)


@model(issubclass)
def m_issubclass(x, cls):
    P = sym.CUR
    if type(x) is SymObj:
        e = st_of(x).extra
        if not e or e.get('inst') is None:
            raise P.unsupported('issubclass of an unknown class')
        if type(cls) is tuple:
            return any(P.inst(e['inst'], k) for k in cls)
        return P.inst(e['inst'], cls)
    return issubclass(x, cls)


@model(type)
def m_type(x, *rest):
    P = sym.CUR
    if rest:
        return type(x, *rest)
    if type(x) is SymStr:
        return str
    if type(x) is SymInt:
        return int
    if type(x) is SymObj:
        s = st_of(x)
        t = sym.TYPEOF(s.t)
        v = P.by_term.get(t.get_id())
        if v is None:
            P.newobj_axioms(t)
            v = SymObj(t, 'type(%s)' % s.name, eqv=True, kind='type',
                       isa=P.ex.type_isa)
            P.by_term[t.get_id()] = v
            P.keep.append(t)
            P.ex.typeof_axioms(P, x, t)
        return v
    return type(x)


@model(getattr)
def m_getattr(x, name, *d):
    P = sym.CUR
    if d:
        try:
            return P.ex.getattr_(P, x, name)
        except AttributeError as e:
            P.check_dead()
            return d[0]
    return P.ex.getattr_(P, x, name)


@model(hasattr)
def m_hasattr(x, name):
    P = sym.CUR
    try:
        P.ex.getattr_(P, x, name)
    except AttributeError:
        P.check_dead()
        return False
    return True


@model(setattr)
def m_setattr(x, name, v):
    P = sym.CUR
    if type(x) is SymObj:
        return P.event('setattr', (x, name, v), result='none')
    if type(name) is SymStr:
        return type(x).__setattr__(x, name, v)
    return setattr(x, name, v)


@model(delattr)
def m_delattr(x, name):
    P = sym.CUR
    if type(x) is SymObj:
        return P.event('delattr', (x, name), result='none')
    if type(name) is SymStr:
        return type(x).__delattr__(x, name)
    return delattr(x, name)


@model(object.__setattr__)
def m_osetattr(x, name, v):
    P = sym.CUR
    if type(x) is SymObj or type(name) is SymStr:
        raise P.unsupported('object.__setattr__ on symbolic')
    return object.__setattr__(x, name, v)


@model(hash)
def m_hash(x):
    if type(x) is SymObj:
        return sym.CUR.event('op:__hash__', (x,))
    if is_sym(x):
        raise sym.CUR.unsupported('hash')
    if sym.CUR.ex.dunders(x):
        r = type(x).__hash__(x)
        if type(r) is SymInt:
            return r
        return _strict(int, r)
    return hash(x)


@model(bool)
def m_bool(*a):
    if a and has_abs(a[0]):
        return True if RT.truth(a[0]) else False
    return bool(*a)


@model(len)
def m_len(x):
    P = sym.CUR
    if type(x) is SymObj:
        return P.event('op:__len__', (x,))
    if type(x) is SymStr:
        return SymInt(z3.Length(x._t))
    if _real(x, (list, tuple)) and not _real(x, dict):
        return P.seq_len(x)
    if P.ex.dunders(x) and hasattr(type(x), '__len__'):
        r = type(x).__len__(x)
        if type(r) is SymInt:
            if not P.branch(r.t >= 0):
                raise ValueError('__len__() should return >= 0')
            return r
        return _strict(int, r)
    return len(x)


@model(iter)
def m_iter(x, *a):
    if type(x) is SymObj and not a:
        return sym.CUR.event('op:__iter__', (x,))
    if has_abs(x):
        return sym.CUR.iterate(x, 'iter()', ())
    return iter(x, *a)


@model(next)
def m_next(x, *a):
    if type(x) is SymObj and not a:
        return sym.CUR.event('op:__next__', (x,))
    return next(x, *a)


@model(repr)
def m_repr(x):
    P = sym.CUR
    if type(x) is SymObj:
        if st_of(x).reprev:
            return P.event('op:__repr__', (x,))
        return SymObj.__repr__(x)
    if P.ex.dunders(x):
        return _strict(str, type(x).__repr__(x))
    return repr(x)


@model(str)
def m_str(*a):
    P = sym.CUR
    if a and type(a[0]) is SymObj:
        if st_of(a[0]).reprev:
            return P.event('op:__str__', (a[0],))
        return SymObj.__str__(a[0])
    if a and type(a[0]) is SymStr:
        return a[0]
    if a and P.ex.dunders(a[0]):
        return _strict(str, type(a[0]).__str__(a[0]))
    return str(*a)


def _strict(ty, r):
    if type(r) in (SymStr, SymInt) or type(r) is ty:
        return r
    if is_sym(r):
        raise sym.CUR.unsupported('%s from an object' % ty.__name__)
    raise TypeError('not a %s' % ty.__name__)


def _conv(ty):
    def f(*a):
        if len(a) == 1 and sym.CUR.ex.dunders(a[0]):
            return getattr(type(a[0]), '__%s__' % ty.__name__)(a[0])
        if a and type(a[0]) is SymObj:
            return sym.CUR.event('op:__%s__' % ty.__name__, (a[0],))
        if a and has_abs(a[0]):
            raise sym.CUR.unsupported(ty.__name__)
        return ty(*a)
    return f


for _t in (int, float, complex):
    MODELS.add(_t)(_conv(_t))


@model(id)
def m_id(x):
    P = sym.CUR
    if type(x) is SymObj and (st_of(x).extra or {}).get('input'):
        return st_of(x).extra['input'] * 16
    if type(x) is SymObj:
        f = z3.Function('addr', sym.Obj, z3.IntSort())
        return SymInt(f(st_of(x).t))
    return id(x)


@model(callable)
def m_callable(x):
    if type(x) is SymObj:
        return sym.CUR.inst(x, _Callable)
    return callable(x)


class _Callable:
    pass


@model(operator.index)
def m_opindex(x):
    if type(x) is SymObj:
        return sym.CUR.event('op:__index__', (x,))
    return operator.index(x)


def _natop(f):
    MODELS.add(f)(f)          # natively dispatches to the symbolic operator


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'lshift',
           'rshift', 'and_', 'xor', 'or_', 'pow', 'neg', 'pos', 'abs',
           'invert', 'iadd', 'isub', 'imul', 'itruediv', 'ifloordiv', 'imod',
           'ilshift', 'irshift', 'iand', 'ixor', 'ior', 'ipow', 'lt', 'le',
           'gt', 'ge', 'matmul', 'imatmul'):
    _natop(getattr(operator, _n))
for _f in (pow, divmod, abs):
    _natop(_f)


@model(operator.getitem)
def m_opgetitem(a, b):
    return RT.getitem(a, b)


@model(operator.setitem)
def m_opsetitem(a, b, v):
    RT.setitem(v, a, b)


@model(operator.contains)
def m_opcontains(a, b):
    return RT.in_(b, a)


@model(operator.eq)
def m_opeq(a, b):
    return RT.eq(a, b)


@model(operator.ne)
def m_opne(a, b):
    return RT.ne(a, b)


@model(operator.is_)
def m_opis(a, b):
    return RT.is_(a, b)


@model(operator.not_)
def m_opnot(a):
    return not RT.truth(a)


@model(operator.truth)
def m_optruth(a):
    return RT.truth(a)


@model(any)
def m_any(x):
    for e in (x if not has_abs(x) else sym.CUR.iterate(x, 'any()', ())):
        if RT.truth(e):
            return True
    return False


@model(all)
def m_all(x):
    for e in (x if not has_abs(x) else sym.CUR.iterate(x, 'all()', ())):
        if not RT.truth(e):
            return False
    return True


@model(dict)
def m_dict(*a, **k):
    d = RT._newdict()
    d.update(*a, **k)
    return d


@model(list)
def m_list(*a):
    if not a:
        return RT._reg(VList())
    x = a[0]
    if _real(x, (list, tuple)):
        return RT._reg(VList(list.__iter__(x) if _real(x, list) else x))
    if type(x) is SymObj:
        return sym.CUR.event('call:list', (x,))
    if _real(x, VDict) and x._abs is not None:
        return RT._reg(x.keys())
    return RT._reg(VList(x))


@model(tuple)
def m_tuple(*a):
    if not a:
        return ()
    x = a[0]
    if _real(x, list):
        return tuple(list.__iter__(x))
    if _real(x, tuple):
        return x
    if type(x) is SymObj:
        return sym.CUR.event('call:tuple', (x,))
    return tuple(x)


@model(sorted)
def m_sorted(x, **k):
    if type(x) is SymObj:
        return sym.CUR.ex.sorted_(sym.CUR, x, k)
    if has_abs(x) or (_real(x, VDict) and x._abs is not None):
        return sym.CUR.ex.sorted_(sym.CUR, x, k)
    x = list(x)
    if has_abs(x):
        return sym.CUR.ex.sorted_(sym.CUR, x, k)
    return sorted(x, **k)


@model(super)
def m_super(*a):
    return super(*a)


@model(functools_update := __import__('functools').update_wrapper)
def m_uw(*a, **k):
    return functools_update(*a, **k)


MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear',
            'sort', 'reverse', 'add', 'discard', 'update', 'setdefault',
            'appendleft', 'popleft', 'extendleft', 'intersection_update',
            'difference_update', 'symmetric_difference_update',
            '__setitem__', '__delitem__', '__iadd__', '__ior__', '__iand__'}


def under_construction(fr, x):
    """Is fr the constructor of x?  (An object is initialised once.)"""
    co = fr.f_code
    return co.co_name == '__init__' and co.co_argcount and \
        fr.f_locals.get(co.co_varnames[0]) is x


def takes(f, n):
    """Are all positional parameters of f among its first n arguments?"""
    if type(f) is types.MethodType:
        f, n = f.__func__, n + 1
    if type(f) is types.FunctionType:
        if f.__closure__ and f.__name__ in ('guarded', 'w', 'getattr_'):
            f = dict(zip(f.__code__.co_freevars, f.__closure__)).get('f')
            return f is None or takes(f.cell_contents, n)
        return f.__code__.co_argcount <= n
    if _real(f, type):
        return all(type(g) is not types.FunctionType or takes(g, n + 1)
                   for g in (f.__init__, f.__new__))
    return True


class RTClass:
    """Identity on ordinary values; symbolic otherwise."""

    @staticmethod
    def _newdict():
        d = VDict()
        if sym.CUR is not None:
            sym.CUR.register(d)
        return d

    @staticmethod
    def _reg(x):
        if sym.CUR is not None:
            sym.CUR.register(x)
        return x

    def mkdict(self, keys, vals):
        d = self._newdict()
        for k, v in zip(keys, vals):
            if sym.CUR is not None and has_abs(k):
                d[k] = v
            else:
                dict.__setitem__(d, k, v) if d._abs is None \
                    else d.__setitem__(k, v)
        return d

    def attr(self, x):
        """An attribute of x is about to change."""
        P = sym.CUR
        if P is not None and P.loops and type(x) is not SymObj and \
                not P.ex.dunders(x) and P.phase in ('impl', 'spec') and \
                P.born.get(id(x), (None, -1))[1] < len(P.loops) and \
                not under_construction(sys._getframe(1), x):
            P.dirty('a loop changes attributes', 0 if id(x) not in P.born
                    else P.born[id(x)][1])
        return x

    def outer(self):
        P = sym.CUR
        if P is not None and P.loops:
            P.dirty('a loop may change outer variables')

    def mklist(self, x):
        return x if sym.CUR is None else self._reg(VList(x))

    def mkset(self, elts):
        if sym.CUR is not None and any(has_abs(e) for e in elts):
            return VList(elts)
        return set(elts)

    def is_(self, a, b):
        if a is b:
            return True
        P = sym.CUR
        if P is None or not (is_sym(a) or is_sym(b)):
            return False
        return P.branch(P.same(a, b), 'is')

    def isnot(self, a, b):
        return not self.is_(a, b)

    def eq(self, a, b):
        if sym.CUR is not None and type(a) is SymObj and st_of(a).eqv is False \
                and type(b) is SymObj and st_of(b).eqv:
            return sym.CUR.branch(sym.CUR.same(a, b))
        if sym.CUR is not None and (type(a) in (tuple, list, VList)) and \
                (has_abs(a) or has_abs(b)):
            return sym.CUR.branch(sym.CUR.same(a, b))
        return a == b

    def ne(self, a, b):
        if sym.CUR is not None and (type(a) in (tuple, list, VList)) and \
                (has_abs(a) or has_abs(b)):
            return not sym.CUR.branch(sym.CUR.same(a, b))
        return a != b

    def in_(self, x, coll):
        P = sym.CUR
        if P is None:
            return x in coll
        if type(coll) is SymObj:
            return P.event('op:__contains__', (coll, x), result='bool')
        if type(coll) is SymStr:
            return x in coll
        if _real(coll, VDict):
            return VDict.__contains__(coll, x)
        if not has_abs(x) and not has_abs(coll):
            return x in coll
        if P.ex.dunders(coll) or sym.ident(x) and _real(coll, dict):
            return x in coll
        if _real(coll, (tuple, list)):
            fs = []
            for e in (list.__iter__(coll) if _real(coll, list)
                      else coll):
                if type(e) is Splice:
                    j = z3.Int('in!j')
                    if sym.compares(e.at(j), x):
                        raise P.unsupported('in, of what compares itself')
                    f = P.same(e.at(j), x)
                    if f is False:
                        continue
                    fs.append(z3.Exists([j], z3.And(
                        j >= 0, j < e.n, True if f is True else f)))
                    continue
                f = P.same(e, x)
                if f is not True and sym.compares(e, x):
                    raise P.unsupported('in, of what compares itself')
                if f is True:
                    if not fs:
                        return True
                    f = z3.BoolVal(True)
                if f is not False:
                    fs.append(f)
            if not fs:
                return False
            return P.branch(z3.Or(fs), 'in')
        if _real(coll, (set, frozenset, type({}.keys()),
                             types.MappingProxyType)) or \
                _real(coll, dict):
            fs = [P.same(e, x) for e in list(coll)]
            fs = [f for f in fs if f is not False]
            if any(f is True for f in fs):
                return True
            return P.branch(z3.Or(fs), 'in') if fs else False
        if _real(coll, str) and type(x) is SymStr:
            return P.branch(z3.Contains(z3.StringVal(coll), x._t))
        raise P.unsupported('in on %s' % type(coll).__name__)

    def notin(self, x, coll):
        return not self.in_(x, coll)

    def truth(self, x):
        P = sym.CUR
        t = type(x)
        if t is bool:
            return x
        if P is None:
            return x
        if t is SymObj:
            return P.truth_of(x)
        if t in (tuple, list) and any(type(e) is Splice for e in x):
            return P.seq_nonempty(VList(x))
        if t is types.GeneratorType:
            return True
        return x

    # calls ---------------------------------------------------------------
    def callee(self, f):
        P = sym.CUR
        if P is None:
            if f is dict:
                return m_dict
            return f
        t = type(f)
        if P.assumed:
            g = P.assumed.get(id(f))
            if g is not None and g[0] is f:
                return g[1]
            if t is types.MethodType:
                g = P.assumed.get(id(f.__func__))
                if g is not None and g[0] is f.__func__:
                    return types.MethodType(g[1], f.__self__)
        if P.loops:
            if t is _BM and f.__name__ in MUTATORS and type(f.__self__) in (
                    set, list, dict, bytearray, collections.deque,
                    collections.OrderedDict, collections.defaultdict):
                P.mutating(f.__self__)
            elif f is setattr or f is delattr:
                return lambda x, *a: f(self.attr(x), *a)
            elif _real(f, type) and not issubclass(f, BaseException):
                g = self._callee(P, f, t)

                def make(*a, **k):
                    x = g(*a, **k)
                    P.born[id(x)] = x, len(P.loops)
                    return x
                return make
        return self._callee(P, f, t)

    def _callee(self, P, f, t):
        if t is types.FunctionType:
            if f.__code__.co_filename in INSTRUMENTED:
                c = P.ex.callee_contract(P, f)
                return f if c is None else c
            return self._guard(f)
        if t is SymObj or t is SymMethod or P.ex.dunders(f):
            return f
        if t is types.MethodType:
            g = f.__func__
            if type(g) is types.FunctionType:
                if g.__code__.co_filename in INSTRUMENTED or \
                        type(f.__self__) in (VDict, VList, SymStr):
                    return f
            return self._guard(f)
        m = MODELS.get(f)
        if m is not None:
            if f is getattr:
                def getattr_(*a):
                    self = sys._getframe(1).f_locals.get('self')
                    return m_getattr(*a) if _absargs(a, {}) else getattr(*a)
                return getattr_
            if f in (dict, list):
                return m

            def w(*a, **k):
                if _absargs(a, k) or a and (_real(a[0], SymExc) or
                                            P.ex.dunders(a[0])):
                    return m(*a, **k)
                return f(*a, **k)
            if f in (any, all):
                return m
            return w
        return self._guard(f)

    def star(self, x):
        """*x in a call: the unbounded runs of x travel as one argument."""
        if sym.CUR is not None and type(x) is VList:
            return tuple(list.__iter__(x))
        return x

    def starcall(self, f):
        P = sym.CUR
        if P is None:
            return f

        def starred(*a, **k):
            n = next((i for i, x in enumerate(a) if type(x) is Splice), None)
            if n is not None and not takes(f, n):
                raise P.unsupported('arguments of unknown number for %r' % (
                    getattr(f, '__qualname__', f),))
            return f(*a, **k)
        return starred

    def kwpass(self, d):
        P = sym.CUR
        if P is None or not (_real(d, VDict) and d._abs is not None):
            return d
        P.kwpending += 1
        return {'__vc_kw__': d}

    def kwargs(self, kw, params):
        P = sym.CUR
        if P is None or '__vc_kw__' not in kw:
            return kw
        d = kw.pop('__vc_kw__')
        if kw:
            raise P.unsupported('keywords of unknown number')
        P.kwpending -= 1
        for n in params:
            # (the call itself is an error otherwise)
            P.assume(z3.Select(d._abs, P.enc(n)) == sym.MISSING_T)
        return self._reg(d.copy())

    def _guard(self, f):
        def guarded(*a, **k):
            P = sym.CUR
            slf = getattr(f, '__self__', None) \
                if type(f) in (_BM, types.MethodType,
                               types.MethodWrapperType) else None
            if type(f) is types.MethodWrapperType:
                slf = f.__self__
            if P is not None and (_absargs(a, k) or (
                    slf is not None and has_abs(slf))):
                r = P.ex.external(P, f, slf, a, k)
                if r is not NOPE:
                    return r
                raise P.unsupported('call of external %r' % (
                    getattr(f, '__qualname__', f),))
            return f(*a, **k)
        return guarded

    # subscripts -----------------------------------------------------------
    def getitem(self, a, i):
        P = sym.CUR
        if P is None:
            return a[i]
        t = type(a)
        if t is SymObj and _real(st_of(a).methods, dict):
            h = st_of(a).methods.get('__getitem__')
            if callable(h):
                return h(i)
        if t in (tuple, list, VList):
            items = list(list.__iter__(a)) if t is not tuple else list(a)
            if any(type(e) is Splice for e in items):
                if type(i) is int and i >= 0:
                    pos = 0
                    for e in items:
                        if type(e) is Splice:
                            idx = i - pos
                            if P.branch(e.n > idx, 'index in range'):
                                return e.at(z3.IntVal(idx))
                            # the splice is shorter; need its exact length
                            for L in range(idx + 1):
                                if P.branch(e.n == L):
                                    pos += L
                                    break
                            continue
                        if pos == i:
                            return e
                        pos += 1
                    raise IndexError('index out of range')
                raise P.unsupported('index into an unbounded sequence')
            if is_sym(i):
                raise P.unsupported('symbolic index')
            return a[i]
        if _real(a, dict) and not _real(a, VDict) and sym.symkey(i):
            for k in list(dict.keys(a)):
                f = P.same(k, i)
                if f is not False and P.branch(f):
                    return dict.__getitem__(a, k)
            raise KeyError(i)
        return a[i]

    def setitem(self, v, a, i):
        if sym.CUR is not None and sym.symkey(i) and _real(a, dict) and \
                not _real(a, VDict):
            r = sym.CUR.ex.external(sym.CUR, dict.__setitem__, None,
                                    (a, i, v), {})
            if r is NOPE:
                raise sym.CUR.unsupported('symbolic key in a plain dict')
            return
        a[i] = v

    def delitem(self, a, i):
        if sym.CUR is not None and sym.symkey(i) and _real(a, dict) and \
                not _real(a, VDict):
            raise sym.CUR.unsupported('symbolic key in a plain dict')
        del a[i]

    # iteration --------------------------------------------------------------
    def _absseq(self, seq):
        t = type(seq)
        if t in (tuple, list):
            return any(type(e) is Splice for e in seq)
        if t is VList:
            return any(type(e) is Splice for e in list.__iter__(seq))
        return False

    def carry(self, site, lambdas, end):
        P = sym.CUR
        now = sym.Path._values(None, lambdas)
        if P is None:
            return now
        return P.carry(site, now, end)

    def unbound(self, x):
        return x is sym.UNBOUND

    def iter(self, seq, site, lambdas=(), names=()):
        P = sym.CUR
        if P is None:
            return seq
        if type(seq) is VDict and seq._abs is not None:
            seq = seq.keys()
        if self._absseq(seq):
            return P.iterate(seq, site, lambdas, 'for', names)
        if type(seq) is SymObj:
            seq = P.ex.iter_object(P, seq, site, lambdas)
            return self.iter(seq, site, lambdas, names)
        return seq

    def citer(self, seq, site, kind):
        P = sym.CUR
        if P is None:
            return seq
        if type(seq) is VDict and seq._abs is not None:
            seq = seq.keys()
        if self._absseq(seq):
            if kind not in ('list', 'search'):
                raise P.unsupported('comprehension over unbounded sequence')
            comp = None
            if kind == 'list':
                comp = dict(count=0, pieces=[], inner=None)
                P.comps[id(sys._getframe(1)), site] = comp
            return P.iterate(seq, site, (), kind, comp=comp)
        if type(seq) is SymObj:
            return self.citer(P.ex.iter_object(P, seq, site, ()), site, kind)
        return seq

    def elt(self, v, site):
        P = sym.CUR
        if P is not None:
            comp = P.comps.get((id(sys._getframe(1)), site))
            if comp is not None:
                if comp['inner'] is None:
                    comp['count'] += 1
                elif comp['inner']['appended'] is None:
                    comp['inner']['appended'] = (v,)
                else:
                    raise P.unsupported('comprehension with many elements '
                                        'for one')
        return v

    def lc(self, lst, site):
        """A list comprehension was evaluated."""
        P = sym.CUR
        if P is None:
            return lst
        comp = P.comps.pop((id(sys._getframe(1)), site), None)
        if comp is None or not comp['pieces']:
            return self._reg(VList(lst))
        out, at = [], 0
        for n, hk, sp in comp['pieces']:
            out += lst[at:n]
            at = n
            out.append(P.comp_piece(hk, sp, site))
        return self._reg(VList(out + lst[at:]))

    def sdc(self, v, site):
        return v

    def wenter(self, site):
        if sym.CUR is not None:
            sym.CUR.wenter(site)

    def whead(self, site, lambdas, names):
        P = sym.CUR
        if P is None:
            out = []
            for l in lambdas:
                try:
                    out.append(l())
                except NameError:
                    out.append(sym.UNBOUND)
            return tuple(out)
        return P.whead(site, lambdas, names)

    def wexit(self, site):
        if sym.CUR is not None:
            sym.CUR.wexit(site)

    # text -------------------------------------------------------------------
    def fstr(self, *parts):
        P = sym.CUR
        out = []
        symbolic = False
        for p in parts:
            if type(p) is str:
                out.append(p)
                continue
            v, conv, spec = p
            if type(v) is SymStr and conv in (-1, 115) and not spec:
                symbolic = True
                out.append(v)
                continue
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            elif conv == 97:
                v = ascii(v)
            out.append(format(v, spec))
        if symbolic and not any(type(x) is str and '\ue000' in x
                                for x in out):
            return SymStr(z3.Concat([strt(x) for x in out])
                          if len(out) > 1 else strt(out[0]))
        return ''.join(x if type(x) is str else str(x) for x in out)

    def mod(self, a, b):
        return a % b

    def match(self, e, typ):
        P = sym.CUR
        if _real(e, EngineExc):
            raise e
        if P is not None:
            P.check_dead()
        if type(typ) is tuple:
            for t in typ:
                if self.match(e, t):
                    return True
            return False
        if P is not None and _real(e, SymExc):
            return P.excmatch(e, typ)
        return _real(e, typ)


RT = RTClass()
INSTRUMENTED = set()
NOPE = object()
