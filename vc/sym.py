"""Symbolic values, path exploration and obligations (z3 back end).

A *path* is one execution of a contract: setup, the real (instrumented)
function, then the contract's specification, under one vector of decisions.
Every symbolic decision is checked for feasibility with z3; exploration ends
when every feasible decision vector has been run, so the set of obligations
covers all inputs and all outcomes of the environment (there is no bound).
"""
import os
import sys
from time import time as _time
import builtins
import types
import z3

_SLOW = os.environ.get('VC_SLOW')
Obj = z3.DeclareSort('Obj')
NUM = z3.Function('num', Obj, z3.IntSort())
TRUTHY = z3.Function('truthy', Obj, z3.BoolSort())
TYPEOF = z3.Function('typeof', Obj, Obj)
S_ = z3.Function('S', z3.StringSort(), Obj)
UNS = z3.Function('unS', Obj, z3.StringSort())
ISSTR = z3.Function('isstr', Obj, z3.BoolSort())
MISSING_T = z3.Const('MISSING', Obj)
EMPTY = z3.K(Obj, MISSING_T)
UNWRAP = z3.Function('unwrap', Obj, Obj)
GETCHK = z3.Function('getchk', Obj, Obj)


def isinstance(x, cls):
    """Only the real type counts (symbolic objects answer for none)."""
    return issubclass(type(x), cls)


class EngineExc(BaseException):
    pass


class PathEnd(EngineExc):
    pass


class Infeasible(EngineExc):
    pass


class Unsupported(EngineExc):
    pass


class Restart(EngineExc):
    pass


class Pending(EngineExc):
    """Not decided here: the path may be followed again (a Restart)."""


class Mismatch(EngineExc):
    """The specification disagrees with the run (structurally)."""


class SymExc(BaseException):
    """An exception raised by the environment; its class is symbolic."""
    def __init__(self, name):
        self.name = name
        self.yes = set()
        self.no = set()

    def __repr__(self):
        return '<exception %s>' % self.name


class SymExcAttr(SymExc, AttributeError):
    def __init__(self, name):
        SymExc.__init__(self, name)
        self.yes = {AttributeError}


class _State:
    __slots__ = ('t', 'name', 'methods', 'fields', 'isa', 'truth', 'eqv',
                 'kind', 'reprev', 'call_returns', 'stable_attrs', 'extra')


CUR = None        # current Path


def cur():
    return CUR


def st_of(x):
    return object.__getattribute__(x, '_s')


def is_sym(x):
    return type(x) in _SYMTYPES


def ident(x):
    """The identity of an object that is known to differ from others."""
    if type(x) is SymObj:
        e = st_of(x).extra
        return e.get('input', 0) if e else 0
    return 0


def symkey(x):
    """Is this key of a dict symbolic?"""
    return type(x) in _SYMTYPES and not ident(x)


def has_abs(x):
    t = type(x)
    if t in _SYMTYPES or t is Splice:
        return True
    if t is VDict:
        return x._abs is not None
    if t in (tuple, list, VList):
        return any(has_abs(e) for e in list.__iter__(x)) if t is not tuple \
            else any(has_abs(e) for e in tuple.__iter__(x))
    if t is dict:
        return any(has_abs(e) for e in x.values())
    return False


def kwtable(k):
    if '__vc_kw__' in k:
        if len(k) > 1:
            raise CUR.unsupported('keywords of unknown number')
        CUR.kwpending -= 1
        return k['__vc_kw__']
    return k


class SymMethod:
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __call__(self, *a, **k):
        k = kwtable(k)
        m = st_of(self.obj).methods
        h = m.get(self.name) if type(m) is dict else None
        if callable(h):
            return h(*a, **k) if type(k) is dict else h(*a, k)
        name = h.get('alias') or self.name if h else self.name
        return CUR.event('call:' + name, (self.obj, a, k))


class SymObj:
    __slots__ = ('_s',)

    def __init__(self, t, name, methods=(), fields=(), isa=(), truth='pure',
                 eqv=False, kind='obj', reprev=False):
        s = _State()
        s.t = t
        s.name = name
        s.methods = methods
        s.fields = dict(fields)
        s.isa = dict(isa)
        s.truth = truth
        s.eqv = eqv
        s.kind = kind
        s.reprev = reprev
        s.extra = None
        object.__setattr__(self, '_s', s)

    def __getattribute__(self, name):
        s = object.__getattribute__(self, '_s')
        p = CUR
        if p is None:
            raise AttributeError(name)
        if type(name) is str:
            if name in s.methods:
                return SymMethod(self, name)
            if name in s.fields:
                return s.fields[name]
            if name == '__class__' and not (s.extra and
                                            s.extra.get('classev')):
                return p.ex.type_of(p, self)
        return p.event('getattr', (self, name))

    def __setattr__(self, name, value):
        CUR.event('setattr', (self, name, value), result='none')

    def __delattr__(self, name):
        CUR.event('delattr', (self, name), result='none')

    def __call__(self, *a, **k):
        return CUR.event('call', (self, a, kwtable(k)))

    def __repr__(self):
        if CUR is None:
            return object.__repr__(self)
        e = st_of(self).extra
        if e and '__repr__' in e.get('attrs', ()):
            return e['attrs']['__repr__'](self)
        return CUR.token('r', self)

    def __str__(self):
        if CUR is None:
            return object.__repr__(self)
        e = st_of(self).extra
        if e and '__str__' in e.get('attrs', ()):
            return e['attrs']['__str__'](self)
        return CUR.token('s', self)

    def __format__(self, spec):
        e = st_of(self).extra
        if e and '__format__' in e.get('attrs', ()):
            return e['attrs']['__format__'](self, spec)
        return CUR.token('f' + spec, self)

    def __hash__(self):
        i = ident(self)
        if i and not st_of(self).extra.get('hashev'):
            return i * 7919
        raise CUR.unsupported('hash of a symbolic object')

    def __bool__(self):
        return CUR.truth_of(self)

    def __eq__(self, other):
        s = object.__getattribute__(self, '_s')
        if CUR is None:
            return self is other
        if s.eqv:
            return CUR.branch(CUR.same(self, other))
        return CUR.event('op:__eq__', (self, other))

    def __ne__(self, other):
        s = object.__getattribute__(self, '_s')
        if s.eqv:
            return not CUR.branch(CUR.same(self, other))
        return CUR.event('op:__ne__', (self, other))

    def __iter__(self):
        return CUR.event('op:__iter__', (self,))

    def __len__(self):
        raise CUR.unsupported('native len of a symbolic object')

    def __contains__(self, x):
        raise CUR.unsupported('native in on a symbolic object')


_BIN = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'divmod', 'lshift',
        'rshift', 'and', 'xor', 'or', 'matmul']
_UN = ['neg', 'pos', 'abs', 'invert', 'int', 'float', 'complex', 'index',
       'next', 'reversed', 'trunc', 'enter']


def _mk(name, n):
    if n == 1:
        def op(self):
            return CUR.event('op:' + name, (self,))
    elif n == 2:
        def op(self, other):
            return CUR.event('op:' + name, (self, other))
    op.__name__ = name
    return op


for _n in _BIN:
    for _p in ('', 'r', 'i'):
        if _n == 'divmod' and _p == 'i':
            continue
        _nm = '__%s%s__' % (_p, _n)
        setattr(SymObj, _nm, _mk(_nm, 2))
for _n in _UN:
    _nm = '__%s__' % _n
    setattr(SymObj, _nm, _mk(_nm, 1))
for _n in ('lt', 'le', 'gt', 'ge'):
    _nm = '__%s__' % _n
    setattr(SymObj, _nm, _mk(_nm, 2))


def _pow(self, other, *mod):
    return CUR.event('op:__pow__', (self, other) + mod)


def _rpow(self, other, *mod):
    return CUR.event('op:__rpow__', (self, other) + mod)


def _ipow(self, other, *mod):
    return CUR.event('op:__ipow__', (self, other) + mod)


SymObj.__pow__ = _pow
SymObj.__rpow__ = _rpow
SymObj.__ipow__ = _ipow
SymObj.__getitem__ = _mk('__getitem__', 2)
SymObj.__delitem__ = lambda self, k: CUR.event(
    'op:__delitem__', (self, k), result='none')
SymObj.__setitem__ = lambda self, k, v: CUR.event(
    'op:__setitem__', (self, k, v), result='none')


class SymStr:
    """A str whose content is a z3 string term."""
    __slots__ = ('_t',)

    def __init__(self, t):
        self._t = t

    def __eq__(self, o):
        return CUR.branch(CUR.same(self, o))

    def __ne__(self, o):
        return not CUR.branch(CUR.same(self, o))

    def __hash__(self):
        raise CUR.unsupported('hash of a symbolic string')

    def __bool__(self):
        return CUR.branch(self._t != z3.StringVal(''))

    def __str__(self):
        return CUR.token('s', self)

    def __repr__(self):
        return CUR.token('r', self)

    def __format__(self, spec):
        return CUR.token('f' + spec, self)

    def startswith(self, p):
        if isinstance(p, tuple):
            return CUR.branch(z3.Or([z3.PrefixOf(strt(q), self._t)
                                     for q in p]))
        return CUR.branch(z3.PrefixOf(strt(p), self._t))

    def endswith(self, p):
        if isinstance(p, tuple):
            return CUR.branch(z3.Or([z3.SuffixOf(strt(q), self._t)
                                     for q in p]))
        return CUR.branch(z3.SuffixOf(strt(p), self._t))

    def __contains__(self, p):
        return CUR.branch(z3.Contains(self._t, strt(p)))

    def __add__(self, o):
        return SymStr(z3.Concat(self._t, strt(o)))

    def __radd__(self, o):
        return SymStr(z3.Concat(strt(o), self._t))

    def __getitem__(self, i):
        n = z3.Length(self._t)
        if isinstance(i, int):
            k = z3.IntVal(i) if i >= 0 else n + i
            if not CUR.branch(z3.And(k >= 0, k < n)):
                raise IndexError('string index out of range')
            return SymStr(z3.SubString(self._t, k, 1))
        if isinstance(i, slice) and i.step is None:
            def norm(v, d):
                if v is None:
                    return d
                if v >= 0:
                    return z3.If(z3.IntVal(v) < n, z3.IntVal(v), n)
                return z3.If(n + v < 0, z3.IntVal(0), n + v)
            a = norm(i.start, z3.IntVal(0))
            b = norm(i.stop, n)
            return SymStr(z3.SubString(self._t, a, z3.If(b > a, b - a, 0)))
        raise CUR.unsupported('string index')

    def __getattr__(self, name):
        raise CUR.unsupported('str.%s' % name)

    def __lt__(self, o):
        return CUR.branch(self._t < strt(o))

    def __iter__(self):
        raise CUR.unsupported('iteration over a symbolic string')


def strt(x):
    if type(x) is SymStr:
        return x._t
    if isinstance(x, str):
        return z3.StringVal(x)
    if type(x) is SymObj:
        s = st_of(x)
        if s.kind == 'strobj':
            return UNS(s.t)
    raise CUR.unsupported('string operation with %s' % type(x).__name__)


class SymInt:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def _c(op):
        def f(self, o):
            o = o.t if type(o) is SymInt else o
            return CUR.branch(op(self.t, o))
        return f
    __eq__ = _c(lambda a, b: a == b)
    __ne__ = _c(lambda a, b: a != b)
    __lt__ = _c(lambda a, b: a < b)
    __le__ = _c(lambda a, b: a <= b)
    __gt__ = _c(lambda a, b: a > b)
    __ge__ = _c(lambda a, b: a >= b)

    def _a(op):
        def f(self, o):
            o = o.t if type(o) is SymInt else o
            return SymInt(op(self.t, o))
        return f
    __add__ = _a(lambda a, b: a + b)
    __radd__ = _a(lambda a, b: b + a)
    __sub__ = _a(lambda a, b: a - b)
    __rsub__ = _a(lambda a, b: b - a)

    def __bool__(self):
        return CUR.branch(self.t != 0)

    def __hash__(self):
        raise CUR.unsupported('hash of a symbolic int')

    def __index__(self):
        raise CUR.unsupported('native index of a symbolic int')

    def __str__(self):
        return CUR.token('s', self)

    __repr__ = __str__


def compares(*xs):
    """Is one of these an object that is asked whether it is equal?"""
    return any(type(x) is SymObj and st_of(x).eqv is False for x in xs)


def plain_state(x):
    """The attributes of an object with a dictionary (not a symbolic one)."""
    if type(x) in (SymObj, SymStr, SymInt, SymExc, SymMethod, tuple, str, int,
                   bool, float) or isinstance(x, type):
        return None
    try:
        d = object.__getattribute__(x, '__dict__')
    except AttributeError:
        return None
    return [(n, id(v)) for n, v in d.items()]


ELEMENT = object()          # in a comprehension: the element itself


class Splice:
    """An unbounded run of elements inside a list or tuple.

    ``n`` is a z3 Int (>= 0), ``at(k)`` gives the element value for a z3 Int
    k (a SymObj, SymStr, or a tuple of them)."""

    def __init__(self, name, n, at, keyset=None):
        self.name = name
        self.n = n
        self.at = at
        self.keyset = keyset

    def __bool__(self):
        raise CUR.unsupported('truth of a splice')

    def __repr__(self):
        return '<%s...>' % self.name


class VList(list):
    """list that may contain a Splice (its length is then symbolic)."""

    def __bool__(self):
        return CUR.seq_nonempty(self) if CUR else list.__len__(self) > 0

    def __len__(self):
        if CUR is not None and any(type(e) is Splice
                                   for e in list.__iter__(self)):
            raise CUR.unsupported('native len of an unbounded list')
        return list.__len__(self)

    def __iter__(self):
        if CUR is not None and any(type(e) is Splice
                                   for e in list.__iter__(self)):
            # allowed for star-args: the splice travels as one element
            pass
        return list.__iter__(self)

    def append(self, x):
        if CUR is not None:
            CUR.mutating(self)
        list.append(self, x)

    def remove(self, x):
        if CUR is not None:
            return CUR.list_remove(self, x)
        list.remove(self, x)

    def extend(self, xs):
        if CUR is not None:
            CUR.mutating(self)
            if not isinstance(xs, (list, tuple)):
                xs = CUR.listed(xs)
        list.extend(self, list.__iter__(xs) if isinstance(xs, list) else xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def insert(self, i, x):
        if CUR is not None:
            CUR.mutating(self)
            if type(i) is not int or i != 0 and self._unbounded():
                raise CUR.unsupported('index in an unbounded list')
        list.insert(self, i, x)

    def clear(self):
        if CUR is not None:
            CUR.mutating(self)
        list.clear(self)

    def copy(self):
        if CUR is None:
            return list.copy(self)
        r = VList(list.__iter__(self))
        CUR.register(r)
        return r

    def _unbounded(self):
        return any(type(e) is Splice for e in list.__iter__(self))

    def _fixed(name):
        g = getattr(list, name)

        def f(self, *a, **k):
            if CUR is not None:
                CUR.mutating(self)
                if self._unbounded() or any(type(x) in _SYMTYPES for x in a):
                    raise CUR.unsupported('%s of an unbounded list' % name)
            return g(self, *a, **k)
        return f
    pop = _fixed('pop')
    sort = _fixed('sort')
    reverse = _fixed('reverse')
    __imul__ = _fixed('__imul__')

    def __add__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        r = VList(list.__iter__(self))
        list.extend(r, list.__iter__(o))
        if CUR is not None:
            CUR.register(r)
        return r

    _delitem = _fixed('__delitem__')

    def __delitem__(self, i):
        if CUR is None or type(i) not in (int, SymInt) or not (
                type(i) is SymInt or self._unbounded()):
            return self._delitem(i)
        CUR.mutating(self)
        j = CUR.position(self, i)
        list.__delitem__(self, j)
    _setitem = _fixed('__setitem__')

    def __setitem__(self, i, v):
        if CUR is None or i == slice(None):
            if CUR is not None:
                CUR.mutating(self)
                if not isinstance(v, (list, tuple)):
                    v = CUR.listed(v)
            list.__setitem__(self, i, list.__iter__(v) if isinstance(v, list)
                             and type(i) is slice else v)
            return
        CUR.mutating(self)
        if type(i) is not int or self._unbounded():
            raise CUR.unsupported('assignment in an unbounded list')
        list.__setitem__(self, i, v)


class VDict(dict):
    """dict of instrumented modules; optionally with a symbolic content.

    _abs is None (ordinary dict) or a z3 Array(Obj, Obj) giving the content
    (MISSING for absent keys)."""
    _abs = None
    _vname = None
    _vwrap = None       # value wrapper: term -> python value
    _kwrap = None

    # abstract access
    def _k(self, key):
        return CUR.enc(key)

    def _lift(self):
        """Turn a concrete dict into an abstract one (symbolic key used)."""
        if self._abs is None:
            a = z3.K(Obj, MISSING_T)
            for k, v in dict.items(self):
                a = z3.Store(a, CUR.enc(k), CUR.enc(v))
                CUR.remember(v)
            CUR.lifted.append((self, dict(dict.items(self))))
            self._abs = a
        return self._abs

    def _use(self, key):
        if CUR is None:
            return False
        return self._abs is not None or symkey(key) or (
            isinstance(key, tuple) and any(symkey(k) or has_abs(k) and
                                           not ident(k) for k in key))

    def _val(self, t):
        return CUR.dec(t, self._vwrap)

    def get(self, key, default=None):
        if not self._use(key):
            return dict.get(self, key, default)
        a = self._lift()
        v = z3.Select(a, self._k(key))
        if CUR.branch(v == MISSING_T):
            return default
        return self._val(v)

    def __getitem__(self, key):
        if not self._use(key):
            return dict.__getitem__(self, key)
        a = self._lift()
        v = z3.Select(a, self._k(key))
        if CUR.branch(v == MISSING_T):
            raise KeyError(key)
        return self._val(v)

    def __contains__(self, key):
        if not self._use(key):
            return dict.__contains__(self, key)
        a = self._lift()
        return not CUR.branch(z3.Select(a, self._k(key)) == MISSING_T)

    def __setitem__(self, key, v):
        if CUR is not None:
            CUR.mutating(self)
        if not self._use(key):
            return dict.__setitem__(self, key, v)
        a = self._lift()
        CUR.remember(v)
        self._abs = z3.Store(a, self._k(key), CUR.enc(v))

    def __delitem__(self, key):
        if CUR is not None:
            CUR.mutating(self)
        if not self._use(key):
            return dict.__delitem__(self, key)
        a = self._lift()
        if CUR.branch(z3.Select(a, self._k(key)) == MISSING_T):
            raise KeyError(key)
        self._abs = z3.Store(a, self._k(key), MISSING_T)

    def pop(self, key, *d):
        if not self._use(key):
            return dict.pop(self, key, *d)
        if key in self:
            v = self[key]
            del self[key]
            return v
        if d:
            return d[0]
        raise KeyError(key)

    def setdefault(self, key, default=None):
        if not self._use(key):
            return dict.setdefault(self, key, default)
        if key in self:
            return self[key]
        self[key] = default
        return default

    def update(self, *args, **kw):
        if CUR is None:
            return dict.update(self, *args, **kw)
        CUR.mutating(self)
        for o in args:
            if isinstance(o, VDict) and o._abs is not None:
                if self._abs is None and dict.__len__(self) == 0 or \
                        self._abs is not None and self._abs.eq(EMPTY):
                    self._abs = o._abs
                    self._kwrap, self._vwrap = o._kwrap, o._vwrap
                    continue
                a = self._lift()
                x = z3.Const('ux', Obj)
                self._abs = z3.Lambda(
                    [x], z3.If(z3.Select(o._abs, x) != MISSING_T,
                               z3.Select(o._abs, x), z3.Select(a, x)))
            elif isinstance(o, dict):
                for k, v in dict.items(o):
                    self[k] = v
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        if CUR is not None:
            CUR.mutating(self)
            if self._abs is not None:
                self._abs = z3.K(Obj, MISSING_T)
                dict.clear(self)
                return
        dict.clear(self)

    def __len__(self):
        if CUR is not None and self._abs is not None:
            raise CUR.unsupported('len of an abstract dict')
        return dict.__len__(self)

    def __bool__(self):
        if CUR is not None and self._abs is not None:
            x = z3.Const('bx', Obj)
            f = z3.Exists([x], z3.Select(self._abs, x) != MISSING_T)
            # avoid quantifiers when possible: empty iff equal to K(MISSING)
            return not CUR.branch(self._abs == z3.K(Obj, MISSING_T))
        return dict.__len__(self) > 0

    def _keysplice(self, what):
        return CUR.dict_splice(self, what)

    def __iter__(self):
        if CUR is not None and self._abs is not None:
            raise CUR.unsupported('native iteration of an abstract dict')
        return dict.__iter__(self)

    def keys(self):
        if CUR is not None and self._abs is not None:
            return VList([self._keysplice('keys')])
        return dict.keys(self)

    def values(self):
        if CUR is not None and self._abs is not None:
            return VList([self._keysplice('values')])
        return dict.values(self)

    def items(self):
        if CUR is not None and self._abs is not None:
            return VList([self._keysplice('items')])
        return dict.items(self)

    def copy(self):
        d = VDict(dict.items(self)) if self._abs is None else VDict()
        d._abs = self._abs
        d._vwrap = self._vwrap
        return d

    def __eq__(self, o):
        if CUR is not None and (self._abs is not None or (
                isinstance(o, VDict) and o._abs is not None)):
            return CUR.branch(CUR.same(self, o))
        return dict.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None


_SYMTYPES = {SymObj, SymStr, SymInt}


class Event:
    __slots__ = ('kind', 'args', 'out', 'val', 'rkind')

    def __init__(self, kind, args, out, val):
        self.kind = kind
        self.args = args
        self.out = out
        self.val = val

    def __repr__(self):
        return '%s%r -> %s %r' % (self.kind, self.args, self.out, self.val)


UNBOUND = type('UNBOUND', (), {'__repr__': lambda s: '<unbound>'})()


class Path:
    """One decision vector."""
    stutter = False     # the path ends in a loop that needs no counterpart

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.decisions = []        # [(options, index, label)]
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', explorer.timeout_ms)
        self.trace = []
        self.tpos = 0
        self.phase = 'setup'
        self.cnt = {}
        self.approx = []
        self.consts = {}
        self.keep = []
        self.lifted = []
        self.by_term = {}
        self.results = []
        self.dead = None
        self.loops = []
        self.tokens = {}
        self.axdone = set()
        self.setup_choices = []
        self.setup_pos = None
        self.twins = {}
        self.objs = []
        self.fieldvals = {}
        self.named = {}
        self.unsup = None
        self.input_syms = []
        self.registry = {}
        self.regindex = {}
        self.comps = {}
        self.compres = {}
        self.born = {}
        self.short = False
        self.whiles = {}
        self.headkey = None
        self.kwpending = 0
        self.perms = []
        self.carried = {}
        self.assumed = {}
        self.impl_cut = False
        self.known = {}
        self.unlike = {}

    # ---- decisions ------------------------------------------------------
    def _decide(self, options, label):
        pos = len(self.decisions)
        if pos < len(self.prefix):
            idx = self.prefix[pos]
        else:
            idx = 0
        self.decisions.append((options, idx, label))
        return options[idx]

    def choose(self, n, label=''):
        self.check_dead()
        opts = list(range(n)) if isinstance(n, int) else list(n)
        if len(opts) == 1:
            return opts[0]
        return self._decide(opts, label)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.pc.append(f)
        self.solver.add(f)

    def sat(self, f):
        self.ex.queries += 1
        t0 = _time()
        self.solver.set('timeout', self.ex.feas_ms)
        r = self.solver.check(f)
        self.solver.set('timeout', self.ex.timeout_ms)
        self.ex.solver_time += _time() - t0
        if _SLOW and _time() - t0 > 1:
            print('SLOW', r, round(_time() - t0, 1), f, file=sys.stderr)
        return r

    def branch(self, f, label=''):
        self.check_dead()
        if f is True or f is False:
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        v = self.peval(f)
        if v is not None:
            return v
        pos = len(self.decisions)
        if pos < len(self.prefix):
            opts = self.ex.optcache[tuple(self.prefix[:pos])]
            v = self._decide(opts, label)
        else:
            opts = []
            if self.sat(f) != z3.unsat:
                opts.append(True)
            if self.sat(z3.Not(f)) != z3.unsat:
                opts.append(False)
            if not opts:
                raise Infeasible()
            self.ex.optcache[tuple(d[1] for d in self.decisions)] = opts
            v = self._decide(opts, label)
        g = f if v else z3.Not(f)
        self.pc.append(g)
        self.solver.add(g)
        self.learn(f, v)
        return v

    # what is known about strings, without asking the solver
    def learn(self, f, v):
        if z3.is_not(f):
            return self.learn(f.arg(0), not v)
        if z3.is_eq(f):
            a, b = f.arg(0), f.arg(1)
            if z3.is_string_value(a):
                a, b = b, a
            if z3.is_string_value(b) and not z3.is_string_value(a):
                self.keep.append(a)
                if v:
                    self.known[a.get_id()] = b.as_string()
                else:
                    self.unlike.setdefault(a.get_id(), set()).add(
                        b.as_string())
        elif z3.is_or(f) and not v or z3.is_and(f) and v:
            for g in f.children():
                self.learn(g, v)

    def peval(self, f):
        if z3.is_not(f):
            v = self.peval(f.arg(0))
            return None if v is None else not v
        if z3.is_eq(f):
            a, b = f.arg(0), f.arg(1)
            if z3.is_string_value(a):
                a, b = b, a
            if z3.is_string_value(b):
                k = self.known.get(a.get_id())
                if k is not None:
                    return k == b.as_string()
                if b.as_string() in self.unlike.get(a.get_id(), ()):
                    return False
            return None
        if z3.is_or(f) or z3.is_and(f):
            unit = z3.is_or(f)
            out = not unit
            for g in f.children():
                v = self.peval(g)
                if v is unit:
                    return unit
                if v is None:
                    out = None
            return out
        return None

    def switch(self, t, values):
        """Which of the strings is t?  (None: none of them)"""
        self.check_dead()
        t = z3.simplify(t)
        if z3.is_string_value(t):
            v = t.as_string()
            return v if v in values else None
        k = self.known.get(t.get_id())
        if k is not None:
            return k if k in values else None
        no = self.unlike.get(t.get_id(), set())
        vals = [v for v in values if v not in no]
        pos = len(self.decisions)
        if pos < len(self.prefix):
            opts = self.ex.optcache[tuple(self.prefix[:pos])]
        else:
            opts = [v for v in vals if self.sat(
                t == z3.StringVal(v)) != z3.unsat]
            if self.sat(z3.And([t != z3.StringVal(v) for v in vals])) != \
                    z3.unsat:
                opts.append(None)
            if not opts:
                raise Infeasible()
            self.ex.optcache[tuple(d[1] for d in self.decisions)] = opts
        v = self._decide(opts, 'which string')
        self.keep.append(t)
        if v is not None:
            self.assume(t == z3.StringVal(v))
            self.known[t.get_id()] = v
        else:
            for x in vals:
                self.assume(t != z3.StringVal(x))
            self.unlike.setdefault(t.get_id(), set()).update(vals)
        return v

    def check_dead(self):
        if self.dead is not None:
            raise self.dead

    def kill(self, exc):
        if self.dead is None:
            self.dead = exc
        return exc

    def unsupported(self, why):
        if self.unsup is None:
            self.unsup = why
        return self.kill(Unsupported(why))

    def approximate(self, why):
        if why not in self.approx:
            self.approx.append(why)

    # ---- terms ----------------------------------------------------------
    def fresh(self, name):
        k = (self.phase_ns(), name)
        n = self.cnt.get(k, 0)
        self.cnt[k] = n + 1
        return '%s%s' % (name, '' if n == 0 else '#%d' % n) \
            if k[0] == 'in' else '%s!%s#%d' % (k[0], name, n)

    def phase_ns(self):
        return {'setup': 'in', 'setup2': 'in'}.get(self.phase, self.phase)

    def const(self, o):
        """z3 constant of a concrete python object."""
        key = id(o)
        c = self.consts.get(key)
        if c is None:
            n = len(self.consts)
            if o is None:
                nm = 'None'
            else:
                nm = 'c!%d!%s' % (n, type(o).__name__)
            c = z3.Const(nm, Obj)
            self.consts[key] = c
            self.keep.append(o)
            self.by_term[c.get_id()] = o
            self.keep.append(c)
            ax = [NUM(c) == n + 2, z3.Not(ISSTR(c))]
            if o is None or o is False:
                ax.append(z3.Not(TRUTHY(c)))
            elif o is True:
                ax.append(TRUTHY(c))
            if isinstance(o, (int, float)) and not isinstance(o, bool):
                ax.append(TRUTHY(c) == bool(o))
            for a in ax:
                self.solver.add(a)
        return c

    def str_term(self, s):
        t = S_(s)
        k = ('S', t.get_id())
        if k not in self.axdone:
            self.axdone.add(k)
            self.keep.append(t)
            self.solver.add(UNS(t) == s, NUM(t) == 1, ISSTR(t),
                            TRUTHY(t) == (s != z3.StringVal('')))
        return t

    def init_axioms(self):
        self.solver.add(NUM(MISSING_T) == 0, z3.Not(ISSTR(MISSING_T)))
        self.consts[id(MISSING_T)] = MISSING_T

    def newobj_axioms(self, t):
        self.solver.add(t != MISSING_T)

    def remember(self, v):
        """Keep a python value for a term so that dec() can return it."""
        t = self.enc(v)
        if t.get_id() not in self.by_term:
            self.by_term[t.get_id()] = v
            self.keep.append(t)

    def enc(self, v):
        t = type(v)
        if t is SymObj:
            return st_of(v).t
        if t is SymStr:
            return self.str_term(v._t)
        if t is str:
            return self.str_term(z3.StringVal(v))
        if t is SymInt:
            raise self.unsupported('int term as object')
        if t is tuple:
            f = z3.Function('tuple%d' % len(v), *([Obj] * (len(v) + 1)))
            return f(*[self.enc(e) for e in v])
        if t is int or t is float or t is bool:
            k = ('num', t, v)
            if k not in self.named:
                self.named[k] = v
            return self.const(self.named[k])
        return self.const(v)

    def dec(self, t, wrap=None):
        """Python value for a term."""
        t = z3.simplify(t) if z3.is_app(t) and t.decl().kind() in (
            z3.Z3_OP_SELECT, z3.Z3_OP_ITE) else t
        v = self.by_term.get(t.get_id())
        if v is not None or t.get_id() in self.by_term:
            return v
        # equal to a stored value? (select over stores left symbolic)
        if wrap is not None:
            v = wrap(t)
        else:
            v = SymObj(t, str(t)[:40], eqv=True)
        self.by_term[t.get_id()] = v
        self.keep.append(t)
        return v

    def new(self, name, **kw):
        nm = self.fresh(name)
        t = z3.Const(nm, Obj)
        self.newobj_axioms(t)
        o = SymObj(t, nm, **kw)
        return o

    # ---- equality -------------------------------------------------------
    def same(self, a, b, depth=0):
        """Formula: a and b are the same value (see module doc)."""
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if tb.__name__ == 'Same' and hasattr(tb, '__init__') and \
                tb.__module__.startswith('contracts.') and ta is bool:
            return b.either if a else True
        if tb.__name__ == 'Unordered' and tb.__module__ == 'vc.conc':
            return self.same_unordered(list(a), list(b.items), depth)
        if ta is SymInt or tb is SymInt:
            x = a.t if ta is SymInt else a
            y = b.t if tb is SymInt else b
            if isinstance(x, (int, z3.ExprRef)) and \
                    isinstance(y, (int, z3.ExprRef)):
                return x == y
            return False
        if ta in _SYMTYPES or tb in _SYMTYPES:
            ia, ib = ident(a), ident(b)
            if ia and ib:
                return ia == ib
            if ia and tb not in _SYMTYPES or ib and ta not in _SYMTYPES:
                return False
            if ta in _SYMTYPES and tb in _SYMTYPES or \
                    self._encodable(a) and self._encodable(b):
                if (ta is SymStr or ta is str) and (tb is SymStr or tb is str):
                    return strt(a) == strt(b)
                return self.enc(a) == self.enc(b)
            return False
        tw = self.twins.get(id(a))
        if tw is not None and tw is b:
            return True
        tw = self.twins.get(id(b))
        if tw is not None and tw is a:
            return True
        if id(a) in self.twins or id(b) in self.twins:
            return False
        if depth > 6:
            return False
        d = depth + 1
        if ta is str and tb is str:
            if a != b and ('\ue000' in a or '\ue000' in b):
                self.approximate('symbolic text compared')
            return a == b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            la, lb = list(list.__iter__(a) if isinstance(a, list) else a), \
                list(list.__iter__(b) if isinstance(b, list) else b)
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            if len(la) != len(lb):
                if any(type(e) is Splice for e in la + lb):
                    return self.same_spliced(la, lb, d)
                return False
            return self.conj([self.same(x, y, d) for x, y in zip(la, lb)])
        if ta is Splice and tb is Splice:
            return self.same_splice(a, b, d)
        if isinstance(a, dict) and isinstance(b, dict):
            return self.same_dict(a, b, d)
        if isinstance(a, BaseException) and isinstance(b, BaseException):
            if isinstance(a, SymExc) or isinstance(b, SymExc):
                return False
            if ta is not tb:
                return False
            return self.same(a.args, b.args, d)
        if ta is SymMethod and tb is SymMethod:
            return a.name == b.name and self.same(a.obj, b.obj, d)
        if ta is types.MethodType and tb is types.MethodType:
            if a.__func__ is not b.__func__:
                return False
            return self.same(a.__self__, b.__self__, d)
        if ta is not tb:
            return False
        h = self.ex.same_hook(self, a, b, d)
        if h is not None:
            return h
        if isinstance(a, (int, float, bytes, complex, frozenset, set)):
            return a == b
        if ta is types.FunctionType or isinstance(a, type):
            return False
        mod = ta.__module__ or ''
        if hasattr(a, '__dict__') and (mod.startswith('zope.security')
                                       or mod.startswith('contracts')
                                       or mod == 'types'):
            return self.same_dict(vars(a), vars(b), d)
        return False

    def same_unordered(self, a, b, depth):
        if len(a) != len(b):
            return False
        b = list(b)
        for x in a:
            for i, y in enumerate(b):
                if self.same(x, y, depth + 1) is True:
                    del b[i]
                    break
            else:
                self.approximate('collections in any order')
                return False
        return True

    def _encodable(self, v):
        return not isinstance(v, (list, dict)) and type(v) is not Splice

    def conj(self, fs):
        out = []
        for f in fs:
            if f is False:
                return False
            if f is True:
                continue
            out.append(f)
        if not out:
            return True
        return z3.And(out) if len(out) > 1 else out[0]

    def same_splice(self, a, b, d):
        if a is b or a.keyset is not None and a.keyset == b.keyset and \
                a.n.eq(b.n):
            return True
        k = z3.Int('spk%d' % d)
        ea, eb = a.at(k), b.at(k)
        f = self.same(ea, eb, d)
        n = a.n == b.n
        if f is True:
            return n
        if f is False:
            return z3.And(n, a.n == 0)
        return z3.And(n, z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < a.n), f)))

    def same_spliced(self, la, lb, d):
        # drop splices that are provably empty, then compare
        def norm(l):
            out = []
            for e in l:
                if type(e) is Splice:
                    if self.sat(e.n > 0) == z3.unsat:
                        continue
                out.append(e)
            return out
        a, b = norm(la), norm(lb)
        if len(a) == len(b):
            return self.conj([self.same(x, y, d) for x, y in zip(a, b)])
        if not any(type(e) is Splice for e in a + b):
            return False
        # concrete against splice of known length
        self.approximate('lists with different splice structure')
        return False

    def abs_of(self, x):
        if isinstance(x, VDict) and x._abs is not None:
            return x._abs
        a = z3.K(Obj, MISSING_T)
        for k, v in dict.items(x):
            a = z3.Store(a, self.enc(k), self.enc(v))
        return a

    def same_dict(self, a, b, d):
        aa = isinstance(a, VDict) and a._abs is not None
        bb = isinstance(b, VDict) and b._abs is not None
        if not aa and not bb:
            ka = [k for k in dict.keys(a)]
            if set(ka) != set(dict.keys(b)):
                return False
            return self.conj([self.same(dict.__getitem__(a, k),
                                        dict.__getitem__(b, k), d)
                              for k in ka])
        A, B = self.abs_of(a), self.abs_of(b)
        if A.eq(B):
            return True
        x = z3.Const('dx', Obj)
        return z3.ForAll([x], z3.Select(A, x) == z3.Select(B, x)) \
            if (z3.is_quantifier(A) or z3.is_quantifier(B)) else A == B

    # ---- obligations ----------------------------------------------------
    def oblige(self, name, f):
        self.check_dead()
        if self.kwpending:
            raise self.unsupported('keywords of unknown number')
        if f is True:
            self.ex.record(self, name, 'proved', 'evaluation')
            return
        if f is False:
            f = z3.BoolVal(False)
        self.ex.obligation_checks += 1
        g = z3.simplify(f)
        if z3.is_true(g):
            self.ex.record(self, name, 'proved', 'z3 simplifier')
            return
        t0 = _time()
        r = self.solver.check(z3.Not(f))
        self.ex.solver_time += _time() - t0
        if _SLOW and _time() - t0 > 1:
            print('SLOW', name, r, round(_time() - t0, 1), f,
                  file=sys.stderr)
        if r == z3.unsat:
            self.ex.record(self, name, 'proved', 'z3')
            self.assume(f)
            return
        if r == z3.unknown:
            r2 = self.ex.second_opinion(self, f)
            if r2 == 'unsat':
                self.ex.record(self, name, 'proved', 'cvc5')
                self.assume(f)
                return
            self.ex.record(self, name, 'unknown',
                           self.solver.reason_unknown())
        else:
            m = self.solver.model()
            self.ex.record(self, name, 'refuted', m)
        raise self.kill(Mismatch(name))

    # ---- truth ----------------------------------------------------------
    def truth_of(self, x):
        s = st_of(x)
        if s.truth == 'event':
            return self.event('op:__bool__', (x,), result='bool')
        return self.branch(TRUTHY(s.t))

    # ---- events ---------------------------------------------------------
    def event(self, kind, args, result='obj'):
        self.check_dead()
        if self.phase == 'spec':
            return self.replay(kind, args)
        if self.phase in ('setup', 'setup2', 'observe'):
            raise self.unsupported('event %s during %s' % (kind, self.phase))
        opts = self.ex.outcomes(self, kind, args, result)
        # options: 'ret', 'exc', 'excattr' or ('const', value)
        o = self.choose(opts, 'event %s' % kind)
        if o == 'exc':
            e = SymExc(self.fresh('exc'))
            e.no.add(AttributeError)
            ev = Event(kind, args, 'exc', e)
        elif o == 'excattr':
            e = SymExcAttr(self.fresh('exca'))
            ev = Event(kind, args, 'exc', e)
        elif o[0] == 'raise':
            e = self.ex.event_exc(self, o[1], args)
            ev = Event(kind, args, 'exc', e)
        elif o[0] == 'const':
            ev = Event(kind, args, 'ret', o[1])
        elif o[0] == 'fun':
            ev = Event(kind, args, 'ret', o[1](self, args))
        else:
            v = self.ex.event_result(self, kind, args, o[1])
            ev = Event(kind, args, 'ret', v)
        ev.rkind = result
        self.trace.append(ev)
        if len(self.trace) > 400:
            raise self.unsupported('trace too long')
        if ev.out == 'exc':
            raise ev.val
        return ev.val

    def marker(self, kind, args):
        """Loop markers travel in the trace."""
        ev = Event(kind, args, 'mark', None)
        ev.rkind = None
        self.trace.append(ev)

    def next_event(self, what):
        if self.tpos >= len(self.trace):
            if self.impl_cut:
                # implementation path was cut (loop back edge)
                pass
            self.oblige('%s: the code performs %s' % (self.ex.name, what),
                        False)
        ev = self.trace[self.tpos]
        self.tpos += 1
        return ev

    def unmatched(self, ev):
        """A loop of the implementation has no counterpart at this point of
        the specification.  It needs none if its iterations do nothing to the
        environment: what it may change is arbitrary after it."""
        if self.solver.check() == z3.unsat:
            return          # there is no such path
        if ev.kind == 'LOOP' and ev.args[5] not in self.ex.skips:
            self.ex.skips.add(ev.args[5])
            raise self.kill(Restart(ev.args[5][1]))
        self.approximate('loop structure differs')

    def replay(self, kind, args):
        what = self.ex.describe(kind)
        ev = self.next_event(what)
        if ev.out == 'mark':
            self.unmatched(ev)
        if ev.kind != kind:
            self.oblige('%s: next observable step is %s (code does %s)' % (
                self.ex.name, what, self.ex.describe(ev.kind)), False)
        f = self.same(ev.args, args)
        self.oblige('%s: %s receives the specified operands' % (
            self.ex.name, what), f)
        if ev.out == 'exc':
            raise ev.val
        return ev.val

    # ---- fields (stable attributes of environment objects) ---------------
    def field(self, obj, name):
        s = st_of(obj)
        mk = s.fields[name]
        f = z3.Function('field_' + name, Obj, Obj)
        t = f(s.t)
        v = self.by_term.get(t.get_id())
        if v is None:
            self.newobj_axioms(t)
            v = mk(t) if callable(mk) else SymObj(
                t, '%s.%s' % (s.name, name), **(mk or {}))
            self.by_term[t.get_id()] = v
            self.keep.append(t)
        return v

    # ---- tokens -----------------------------------------------------------
    def token(self, conv, v):
        if type(v) is SymObj:
            key = (conv, 'o', st_of(v).t.get_id())
            self.keep.append(st_of(v).t)
        elif type(v) is SymStr:
            key = (conv, 's', v._t.get_id())
            self.keep.append(v._t)
        else:
            key = (conv, 'i', v.t.get_id())
            self.keep.append(v.t)
        if key not in self.tokens:
            self.tokens[key] = len(self.tokens)
        return '\ue000%d\ue001' % self.tokens[key]

    # ---- isinstance / match -----------------------------------------------
    def inst(self, x, cls):
        """isinstance(x, cls) for a symbolic object and one class."""
        s = st_of(x)
        if cls is object:
            return True
        for c, v in s.isa.items():
            if c is cls:
                return v
            try:
                if v and issubclass(c, cls):
                    return True
                if not v and issubclass(cls, c):
                    return False
            except TypeError:
                pass
        hook = self.ex.inst_hook(self, x, cls)
        if hook is not None:
            return hook
        f = z3.Function('inst_%s_%d' % (getattr(cls, '__name__', 'cls'),
                                        self.clsid(cls)), Obj, z3.BoolSort())
        # a concrete alias decides itself
        r = self.branch(f(s.t), 'isinstance %s' % getattr(
            cls, '__name__', cls))
        s.isa[cls] = r
        return r

    def clsid(self, cls):
        return NUM_CLS.setdefault(cls, len(NUM_CLS))

    def excmatch(self, e, cls):
        if cls is BaseException:
            return True
        for c in e.yes:
            if issubclass(c, cls):
                return True
        for c in e.no:
            if issubclass(cls, c):
                return False
        r = self.choose([True, False], 'exception %s is a %s' % (
            e.name, cls.__name__))
        (e.yes if r else e.no).add(cls)
        return r

    # ---- containers ---------------------------------------------------------
    def register(self, cont):
        reg = self.registry.setdefault(self.phase, [])
        self.regindex[id(cont)] = (self.phase, len(reg))
        reg.append(cont)
        return cont

    def dirty(self, why, since=0):
        """What a loop does here matters if the loop goes on."""
        for L in self.loops[since:]:
            L['dirty'] = why

    def mutating(self, cont):
        if self.phase in ('setup', 'setup2', 'observe'):
            return
        for L in self.loops:
            ix = self.regindex.get(id(cont))
            if ix is None:
                L['dirty'] = 'a loop changes a container of unknown origin'
            elif ix[1] < L['snap'].get(ix[0], 0):
                ms = self.ex.modsets.setdefault(L['mkey'], set())
                if ix not in ms:
                    ms.add(ix)
                    raise self.kill(Restart(L['mkey'][2]))

    def listed(self, xs):
        if type(xs) in _SYMTYPES or isinstance(xs, VDict) and \
                xs._abs is not None:
            raise self.unsupported('list of a symbolic value')
        return list(xs)

    def seq_nonempty(self, seq):
        fs = []
        for e in list.__iter__(seq):
            if type(e) is Splice:
                fs.append(e.n > 0)
            else:
                return True
        if not fs:
            return False
        return self.branch(z3.Or(fs))

    def seq_len(self, seq):
        n = 0
        t = None
        for e in (list.__iter__(seq) if isinstance(seq, list) else seq):
            if type(e) is Splice:
                t = e.n if t is None else t + e.n
            else:
                n += 1
        return n if t is None else SymInt(t + n)

    def position(self, seq, i):
        """Which of the elements (no part of a run) has the index i."""
        it = i.t if type(i) is SymInt else z3.IntVal(i)
        at = z3.IntVal(0)
        for j, e in enumerate(list.__iter__(seq)):
            if type(e) is Splice:
                at = at + e.n
                continue
            if self.branch(it == at, 'index'):
                return j
            at = at + 1
        raise self.unsupported('index of one in a run')

    def list_remove(self, seq, x):
        if not any(type(e) is Splice for e in list.__iter__(seq)):
            for i, e in enumerate(list.__iter__(seq)):
                f = self.same(e, x)
                if f is not True and compares(e, x):
                    raise self.unsupported('remove, of what compares itself')
                if self.branch(f):
                    self.mutating(seq)
                    list.__delitem__(seq, i)
                    return
            raise ValueError('list.remove(x): x not in list')
        ev = self.event('list.remove', (seq, x), result='none')
        return ev

    def dict_splice(self, d, what):
        """The items of an abstract dict as a splice over distinct keys."""
        A = d._abs
        key = ('ds', A.get_id())
        sp = self.named.get(key)
        if sp is None:
            nm = self.fresh('keys')
            A0 = A
            if not (z3.is_const(A) and
                    A.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                A = z3.Const(nm + '.of', z3.ArraySort(Obj, Obj))
                self.assume(A == A0)
            ks = z3.Const(nm, z3.ArraySort(z3.IntSort(), Obj))
            n = z3.Int(nm + '.n')
            ix = z3.Function(nm + '.ix', Obj, z3.IntSort())
            i = z3.Int('i')
            x = z3.Const('x', Obj)
            self.keep.append((A0, A))
            self.assume(n >= 0)
            self.assume(z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i < n),
                z3.And(z3.Select(A, z3.Select(ks, i)) != MISSING_T,
                       ix(z3.Select(ks, i)) == i)),
                patterns=[z3.Select(ks, i)]))
            self.assume(z3.ForAll([x], z3.Implies(
                z3.Select(A, x) != MISSING_T,
                z3.And(ix(x) >= 0, ix(x) < n,
                       z3.Select(ks, ix(x)) == x)),
                patterns=[z3.Select(A, x)]))
            sp = self.named[key] = (nm, n, ks, A)
        nm, n, ks, A = sp
        dec = self.dec

        def at(k):
            kt = z3.Select(ks, k)
            kv = dec(kt, d._kwrap)
            if what == 'keys':
                return kv
            vv = dec(z3.Select(A, kt), d._vwrap)
            return vv if what == 'values' else (kv, vv)
        return Splice(nm, n, at, keyset=(nm, what))

    # ---- loops --------------------------------------------------------------
    def iterate(self, seq, site, lambdas=(), kind='for', names=(),
                comp=None):
        elems = list(list.__iter__(seq)) if isinstance(seq, list) \
            else list(seq)
        return self._iter(elems, site, lambdas, kind, names, comp)

    def carry(self, site, now, end):
        """The values that the locals of a loop have at its head."""
        key = (self.phase, site, end)
        c = self.carried.pop(key, None)
        if c is None:
            return now
        out = list(now)
        for i, v in c.items():
            out[i] = v
        return out

    def category(self, v):
        t = type(v)
        if t is bool:
            return 'bool'
        if t is int or t is SymInt:
            return 'int'
        if t is str or t is SymStr:
            return 'str'
        if isinstance(v, (list, dict, tuple, set, frozenset, bytes, float,
                          complex)) or v is UNBOUND:
            return 'container'
        return 'object'

    def havoc_value(self, v):
        t = type(v)
        if t is bool:
            return self.branch(z3.Bool(self.fresh('loopbool')))
        if t is int or t is SymInt:
            return SymInt(z3.Int(self.fresh('loopint')))
        if t is str or t is SymStr:
            return SymStr(z3.String(self.fresh('loopstr')))
        if self.category(v) == 'container':
            raise self.unsupported('loop-carried container')
        h = self.new('loopvar')
        st_of(h).extra = dict(self.ex.FREE)
        return h

    def _iter(self, elems, site, lambdas, kind, names=(), comp=None):
        for e in elems:
            if type(e) is not Splice:
                yield e
                continue
            for v in self._splice_loop(e, site, lambdas, kind, names,
                                       comp):
                yield v

    def _values(self, lambdas):
        out = []
        for l in lambdas:
            try:
                out.append(l())
            except NameError:
                out.append(UNBOUND)
        return out

    def _splice_loop(self, sp, site, lambdas, kind, names=(), comp=None):
        if self.sat(sp.n > 0) == z3.unsat:
            return
        before = self._values(lambdas)
        key = (self.phase, site)
        mkey = key + (self.head_prefix('LOOP', 5),)
        L = dict(site=key, mkey=mkey, snap={p: len(r) for p, r in self.registry.items()},
                 fresh_ok=())
        mods = [self.registry[p][i] for p, i in
                sorted(self.ex.modsets.get(mkey, ()))
                if p in self.registry and i < len(self.registry[p])]
        learned = sorted(self.ex.modsets.get(('f',) + mkey, ()))
        entry = [self.state_of(m) for m in mods] + [
            ('value', before[i]) for i in learned]
        choice, k, havoc = self.loop_head('LOOP', sp, entry, mods, kind)
        L['perm'] = self.perms.pop() if self.phase == 'spec' else None
        for m, h in zip(mods, havoc):
            self.set_state(m, h)
        at_head = {i: h[1] for i, h in zip(learned, havoc[len(mods):])}
        if choice == 'exit' and at_head:
            self.carried[key + (1,)] = at_head
        elif at_head:
            self.carried[key + (0,)] = at_head
        if choice == 'exit':
            facts = self.ex.backs.get(self.headkey)
            hk = self.headkey
            if facts is not None and facts[0] is not None:
                jv = z3.Int('j!')
                body = [z3.substitute(f, (kk, jv)) for kk, f in facts[1]]
                self.assume(z3.ForAll([jv], z3.Implies(
                    z3.And(jv >= 0, jv < sp.n), z3.Or(body))))
            if comp is not None:
                if self.phase == 'spec' and self.impl_loop[1] != 'list':
                    raise self.unsupported('comprehension only in the '
                                           'specification')
                comp['pieces'].append((comp['count'], hk if self.phase !=
                                       'spec' else self.impl_loop[0], sp))
            return
        self.loops.append(L)
        tl = len(self.trace)
        tp = self.tpos
        np = len(self.pc)
        hk = self.headkey
        L['appended'] = None
        L['comp'] = comp is not None and (
            self.phase != 'spec' or self.impl_loop[1] == 'list')
        if comp is not None:
            comp['inner'] = L
        elem = sp.at(k)
        was = plain_state(elem)
        try:
            yield elem
        except GeneratorExit:
            if L in self.loops:
                self.loops.remove(L)
            raise
        # ---- back edge
        self.check_dead()
        if was is not None and was != plain_state(elem):
            raise self.unsupported('a loop changes the elements')
        self.loops.remove(L)
        if L.get('dirty'):
            raise self.unsupported(L['dirty'])
        after = self._values(lambdas)
        new = set()
        for i in at_head:
            if self.category(before[i]) != self.category(after[i]):
                raise self.unsupported('loop-carried values of many types')
        for i, (a, b) in enumerate(zip(before, after)):
            if i not in at_head and a is not b and a is not UNBOUND:
                f = self.same(a, b)
                if f is not True:
                    new.add(i)
        if new:
            if not names:
                raise self.unsupported(
                    'loop-carried local variable in %s' % (site,))
            self.ex.modsets.setdefault(('f',) + mkey, set()).update(new)
            raise self.kill(Restart(mkey[2]))
        if self.phase == 'impl':
            quiet = len(self.trace) == tl
            if hk in self.ex.skips:
                if not quiet or comp is not None:
                    raise self.unsupported('loop structure differs')
                self.stutter = True
            rec = self.ex.backs.setdefault(hk, [True, [], []])
            if not quiet:
                rec[0] = None
            pcs = self.pc[np:]
            rec[1].append((k, z3.And(pcs) if len(pcs) != 1 else pcs[0]))
            ap = L['appended']
            rec[2].append((k, (ELEMENT,) if ap is not None and
                           ap[0] is elem else ap))
        self.loop_back(sp, [self.state_of(m) for m in mods] + [
            ('value', after[i]) for i in learned], L)

    def head_prefix(self, kind, i):
        """The decisions before the loop (in a specification: before the
        loop of the implementation that it corresponds to)."""
        if self.phase == 'spec':
            for ev in self.trace[self.tpos:]:
                if ev.kind == kind:
                    return ev.args[i][1]
                if kind == 'LOOP' and ev.out != 'mark':
                    break
        return tuple(d[1] for d in self.decisions)

    def state_of(self, m):
        if isinstance(m, VDict):
            return ('dict', self.abs_of(m), m._vwrap)
        return ('list', VList(list.__iter__(m)))

    def set_state(self, m, h):
        if isinstance(m, VDict):
            m._abs = h[1]
        else:
            list.__setitem__(m, slice(None), list(list.__iter__(h[1])))

    def havoc_like(self, stt):
        if stt[0] == 'value':
            return ('value', self.havoc_value(stt[1]))
        if stt[0] == 'dict':
            return ('dict', z3.Const(self.fresh('loopdict'),
                                     z3.ArraySort(Obj, Obj)), stt[2])
        nm = self.fresh('looplist')
        n = z3.Int(nm + '.n')
        self.assume(n >= 0)
        arr = z3.Const(nm, z3.ArraySort(z3.IntSort(), Obj))
        return ('list', VList([Splice(nm, n, lambda k: self.dec(
            z3.Select(arr, k)))]))

    def same_state(self, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == 'dict':
            if a[1].eq(b[1]):
                return True
            x = z3.Const('dx', Obj)
            return z3.ForAll([x], z3.Select(a[1], x) == z3.Select(b[1], x)) \
                if z3.is_quantifier(a[1]) or z3.is_quantifier(b[1]) \
                else a[1] == b[1]
        return self.same(a[1], b[1])

    def loop_head(self, kind, sp, entry, mods, what):
        if self.phase == 'spec':
            if self.tpos >= len(self.trace):
                self.approximate('loop structure differs')
            ev = self.next_event('a loop')
            if ev.kind != kind:
                self.unmatched(ev)
                self.oblige('%s: loop over the same sequence' % self.ex.name,
                            False)
            sp2, choice, k, entry2, havoc, hk, what2 = ev.args
            self.impl_loop = hk, what2
            f = self.same_splice(sp2, sp, 0)
            if f is False or f is not True and \
                    self.solver.check(z3.Not(f)) == z3.sat:
                self.unmatched(ev)
            self.oblige('%s: loop over the same sequence' % self.ex.name, f)
            if len(entry2) < len(entry):
                self.approximate('loop state differs')
                self.oblige('%s: loop state' % self.ex.name, False)
            if len(entry2) > len(entry):
                self.short = True
            perm = self._match_states(entry, entry2)
            self.perms.append(perm)
            for a, b in zip(entry, perm):
                self.loopob('loop invariant holds initially',
                            self.same_state(a, entry2[b]))
            havoc = [havoc[b] for b in perm]
            self.headkey = ('spec',)
            return choice, k, havoc
        self.headkey = (site_phase(self), tuple(
            d[1] for d in self.decisions))
        havoc = [self.havoc_like(e) for e in entry]
        if havoc:
            self.approximate('loop state')
        choice = self.choose(['iterate', 'exit'], 'loop %s' % sp.name)
        k = z3.Int(self.fresh('k'))
        if choice == 'iterate':
            self.assume(z3.And(k >= 0, k < sp.n))
        if self.headkey in self.ex.skips:
            self.approximate('loop without counterpart')
            return choice, k, havoc
        self.marker(kind, (sp, choice, k, entry, havoc, self.headkey, what))
        return choice, k, havoc

    def loopob(self, what, f):
        if f is not True:
            self.approx_once = True
            self.approximate('loop invariant inferred')
        self.oblige('%s: %s' % (self.ex.name, what), f)
        if 'loop invariant inferred' in self.approx:
            self.approx.remove('loop invariant inferred')

    def loop_back(self, sp, state, L):
        if self.phase == 'spec':
            ev = self.next_event('another iteration')
            if ev.kind != 'BACK':
                self.oblige('%s: iteration ends as specified' % self.ex.name,
                            False)
            perm = L['perm']
            for a, b in zip(state, perm):
                self.loopob('loop invariant is preserved',
                            self.same_state(a, ev.args[1][b]))
            if len(state) != len(ev.args[1]):
                raise self.kill(Pending('loop state differs'))
            if L['comp']:
                a, b = L['appended'], ev.args[2]
                self.loopob('the element is the specified one',
                            self.same(a[0], b[0])
                            if a is not None and b is not None else a is b)
            raise PathEnd('back')
        if not self.stutter:
            self.marker('BACK', (sp, state, L['appended']))
        raise self.kill_soft(PathEnd('back'))

    def kill_soft(self, e):
        """End this phase (the specification still has to be run)."""
        self.dead = e
        return e

    # while loops: loop-carried locals
    def wenter(self, site):
        self.whiles[(self.phase, site)] = None

    def whead(self, site, lambdas, names):
        key = (self.phase, site)
        now = self._values(lambdas)
        info = self.whiles.get(key)
        mkey = key + (info['at'] if info else self.head_prefix('WLOOP', 4),)
        learned = self.ex.modsets.get(('w',) + mkey)
        if info is None:                       # first arrival
            self.whiles[key] = dict(
                vals=now, nd=len(self.decisions), nt=len(self.trace) + self.tpos,
                count=1, inloop=False, at=mkey[2])
            return tuple(now)
        if learned is not None and not info['inloop']:
            # the first iteration is peeled; the loop is cut here
            mods = [self.registry[p][i] for p, i in
                    sorted(self.ex.modsets.get(mkey, ()))
                    if p in self.registry and i < len(self.registry[p])]
            info['mods'] = mods
            carried = [i for i, n in enumerate(names) if n in learned]
            entry = [now[i] for i in carried]
            cst = [self.state_of(m) for m in mods]
            if self.phase == 'spec':
                ev = self.next_event('a loop')
                if ev.kind != 'WLOOP' or len(ev.args[0]) != len(entry) or \
                        len(ev.args[2]) != len(cst):
                    self.approximate('loop structure differs')
                    self.oblige('%s: loop' % self.ex.name, False)
                perm = self._match(entry, ev.args[0])
                for a, b in zip(entry, perm):
                    self.loopob('loop invariant holds initially',
                                self.same(a, ev.args[0][b]))
                for a, b in zip(cst, ev.args[2]):
                    self.loopob('loop invariant holds initially',
                                self.same_state(a, b))
                havoc = [ev.args[1][b] for b in perm]
                ch = ev.args[3]
                self.whiles[key]['perm'] = perm
            else:
                havoc = []
                for v in entry:
                    havoc.append(self.havoc_value(v))
                ch = [self.havoc_like(e) for e in cst]
                self.approximate('loop state')
                self.marker('WLOOP', (entry, havoc, cst, ch,
                                      ('impl', info['at'])))
            for m, h in zip(mods, ch):
                self.set_state(m, h)
            out = list(now)
            for i, h in zip(carried, havoc):
                out[i] = h
            self.whiles[key].update(carried=carried, after=out, inloop=True)
            self.loops.append(dict(site=key, mkey=mkey, snap={
                p: len(r) for p, r in self.registry.items()}, fresh_ok=()))
            return tuple(out)
        if learned is None:
            if len(self.decisions) == info['nd'] and \
                    len(self.trace) + self.tpos == info['nt']:
                return tuple(now)              # concrete loop: run natively
            ch = {n for n, a, b in zip(names, info['vals'], now)
                  if a is not b and a is not UNBOUND}
            self.ex.modsets[('w',) + mkey] = ch
            raise self.kill(Restart(mkey[2]))
        extra = {n for n, a, b in zip(names, info['after'], now)
                 if a is not b and a is not UNBOUND} - learned
        if extra:
            learned |= extra
            raise self.kill(Restart(mkey[2]))
        for L in self.loops:
            if L['site'] == (self.phase, site) and L.get('dirty'):
                raise self.unsupported(L['dirty'])
        self.wexit(site)
        vals = [now[i] for i in info['carried']]
        for i, v in zip(info['carried'], vals):
            if self.category(v) != self.category(info['after'][i]):
                raise self.unsupported('loop-carried values of many types')
        cst = [self.state_of(m) for m in info['mods']]
        if self.phase == 'spec':
            ev = self.next_event('another iteration')
            if ev.kind != 'WBACK':
                self.oblige('%s: iteration ends as specified' % self.ex.name,
                            False)
            for a, b in zip(vals, info['perm']):
                self.loopob('loop invariant is preserved',
                            self.same(a, ev.args[0][b]))
            for a, b in zip(cst, ev.args[1]):
                self.loopob('loop invariant is preserved',
                            self.same_state(a, b))
            raise PathEnd('back')
        self.marker('WBACK', (vals, cst))
        raise self.kill_soft(PathEnd('back'))

    def wexit(self, site):
        for L in list(self.loops):
            if L['site'] == (self.phase, site):
                self.loops.remove(L)

    def _match_states(self, spec, impl):
        used, perm = set(), []
        for i, a in enumerate(spec):
            order = ([i] if i < len(impl) else []) + list(range(len(impl)))
            for j in order:
                if j in used or impl[j][0] != a[0]:
                    continue
                if len(spec) == len(impl) == 1:
                    break
                f = self.same_state(a, impl[j])
                if f is True or (f is not False and
                                 self.sat(z3.Not(f)) == z3.unsat):
                    break
            else:
                self.approximate('loop state differs')
                self.oblige('%s: loop state' % self.ex.name, False)
            used.add(j)
            perm.append(j)
        return perm

    def _match(self, spec_vals, impl_vals):
        n = len(spec_vals)
        if n <= 1:
            return list(range(n))
        used, perm = set(), []
        for v in spec_vals:
            for j, w in enumerate(impl_vals):
                if j in used:
                    continue
                f = self.same(v, w)
                if f is True or (f is not False and
                                 self.sat(z3.Not(f)) == z3.unsat):
                    used.add(j)
                    perm.append(j)
                    break
            else:
                self.approximate('loop state differs')
                self.oblige('%s: loop state' % self.ex.name, False)
        return perm


def site_phase(p):
    return p.phase


NUM_CLS = {}
