"""Concrete engine: runs contracts natively against the code as it is.

Environment objects are recorders whose every answer is a decision; decision
vectors are enumerated depth first up to a stated bound (then sampled with
VERIF_SEED), single calls first, then short histories over shared objects.
"""
import gc
import operator
import random
import sys
import types

from .dsl import Env

CUR = None


def isinstance(x, cls):
    """The real type counts: proxies answer for the object they hold."""
    return issubclass(type(x), cls)


class EngineExc(BaseException):
    pass


class Abort(EngineExc):
    pass


class Mismatch(EngineExc):
    pass


class Hang(EngineExc):
    """A run takes far too long."""


class Infeasible(EngineExc):
    """The chosen inputs do not satisfy the precondition."""


class EnvError(Exception):
    """An arbitrary exception of the environment."""


class EnvAttributeError(AttributeError):
    """An AttributeError of the environment."""


class EnvTypeError(TypeError):
    """A TypeError of the environment."""


class EnvBaseError(BaseException):
    """An exception outside the Exception hierarchy."""


ENV_EXC = (EnvError, EnvAttributeError, EnvTypeError, EnvBaseError)

_oga = object.__getattribute__
_osa = object.__setattr__


class _MS:
    __slots__ = ('name', 'methods', 'fields', 'truth', 'classev', 'val')


class MockMethod:
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __call__(self, *a, **k):
        s = _oga(self.obj, '_vs')
        h = s.methods.get(self.name)
        if callable(h):
            return h(*a, **k)
        kind = 'call:' + self.name
        if h and h.get('alias'):
            kind = 'call:' + h['alias']
        return CUR.event(kind, (self.obj, a, k), h or {})


_INTERNAL = {'_vs', '__dict__', '__weakref__', '__slots__'}


def _getattribute(self, name):
    if name in _INTERNAL:
        return _oga(self, name)
    s = _oga(self, '_vs')
    if name in s.methods:
        return MockMethod(self, name)
    if name in s.fields:
        return s.fields[name]
    if name == '__class__' and not s.classev:
        return type(self)
    p = CUR
    if p is None or p.phase not in ('impl', 'spec'):
        return _oga(self, name)
    return p.event('getattr', (self, name))


def _ev(nm, res=None):
    def f(self, *a):
        p = CUR
        if p is None or p.phase not in ('impl', 'spec'):
            raise TypeError('%s outside a run' % nm)
        return p.event('op:' + nm, (self,) + a)
    f.__name__ = nm
    return f


def _call(self, *a, **k):
    return CUR.event('call', (self, a, k))


def _setattr(self, name, v):
    CUR.event('setattr', (self, name, v))


def _delattr(self, name):
    CUR.event('delattr', (self, name))


BINOPS = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'divmod',
          'lshift', 'rshift', 'and', 'xor', 'or', 'matmul', 'pow']
UNOPS = ['neg', 'pos', 'abs', 'invert', 'int', 'float', 'complex', 'index']

NS_ALL = {}
for _n in BINOPS:
    for _p in ('', 'r', 'i'):
        if _n == 'divmod' and _p == 'i':
            continue
        NS_ALL['__%s%s__' % (_p, _n)] = _ev('__%s%s__' % (_p, _n))
for _n in UNOPS + ['getitem', 'setitem', 'delitem', 'contains', 'len', 'iter',
                   'next', 'reversed', 'trunc', 'round', 'enter', 'exit',
                   'lt', 'le', 'gt', 'ge']:
    NS_ALL['__%s__' % _n] = _ev('__%s__' % _n)
NS_ALL['__call__'] = _call

_classes = {}


def mock_class(name, bases=(), ops='all', eqev=False, hashev=False,
               boolev=False, textev=False, without=(), meta=None, attrs=()):
    key = (name, bases, ops, eqev, hashev, boolev, textev, without, meta,
           attrs)
    c = _classes.get(key)
    if c is not None:
        return c
    ns = {'__getattribute__': _getattribute, '__setattr__': _setattr,
          '__delattr__': _delattr, '__module__': 'env'}
    if not bases:
        ns['__slots__'] = ('_vs', '__weakref__')
    else:
        ns['__slots__'] = ('_vs',)
    if ops == 'all':
        ns.update(NS_ALL)
    else:
        for o in ops:
            ns[o] = NS_ALL[o] if o in NS_ALL else _ev(o)
    if eqev:
        ns['__eq__'] = _ev('__eq__')
        ns['__ne__'] = _ev('__ne__')
        ns['__hash__'] = object.__hash__
    if hashev:
        ns['__hash__'] = _ev('__hash__')
    if boolev:
        ns['__bool__'] = _ev('__bool__')
    else:
        ns['__bool__'] = lambda self: _oga(self, '_vs').truth
    if textev:
        ns['__str__'] = _ev('__str__')
        ns['__repr__'] = _ev('__repr__')
    else:
        ns['__str__'] = ns['__repr__'] = \
            lambda self: '<%s>' % _oga(self, '_vs').name
    for w in without:
        ns.pop(w, None)
    for k, v in attrs:
        ns[k] = v
    c = (meta or type)('M_' + name, bases or (object,), ns)
    _classes[key] = c
    return c


def is_mock(x):
    return type(x).__dict__.get('__getattribute__') is _getattribute or any(
        k.__dict__.get('__getattribute__') is _getattribute
        for k in type(x).__mro__)


def mk(cls, name, methods=None, fields=None, truth=True, classev=False):
    o = cls.__new__(cls)
    s = _MS()
    s.name = name
    s.methods = methods or {}
    s.fields = {} if fields is None else fields
    s.truth = truth
    s.classev = classev
    s.val = None
    _osa(o, '_vs', s)
    return o


def desc(x, depth=0):
    if is_mock(x):
        return '<%s>' % _oga(x, '_vs').name
    if isinstance(x, BaseException):
        return '%s%s' % (type(x).__name__, desc(x.args, depth + 1)
                         if depth < 4 else '(..)')
    if type(x) is tuple:
        return '(%s)' % ', '.join(desc(e, depth + 1) for e in x[:8]) \
            if depth < 5 else '(..)'
    if isinstance(x, list):
        return '[%s]' % ', '.join(desc(e, depth + 1) for e in x[:8]) \
            if depth < 5 else '[..]'
    if isinstance(x, dict):
        return '{%s}' % ', '.join(
            '%s: %s' % (desc(k, depth + 1), desc(v, depth + 1))
            for k, v in list(dict.items(x))[:8]) if depth < 5 else '{..}'
    if type(x) is MockMethod:
        return '%s.%s' % (desc(x.obj), x.name)
    try:
        if isinstance(x, (str, bytes, int, float, complex, type(None))):
            return ascii(x)[:120]
        if isinstance(x, (type, types.FunctionType)):
            return x.__qualname__
        return '<%s at %s>' % (type(x).__name__, hex(id(x))[-5:])
    except BaseException:
        return '<%s>' % type(x).__name__


class Unordered:
    def __init__(self, items):
        self.items = items


class Event:
    __slots__ = ('kind', 'args', 'out', 'val')

    def __init__(self, kind, args, out, val):
        self.kind, self.args, self.out, self.val = kind, args, out, val

    def __repr__(self):
        return '%s%s -> %s %s' % (self.kind, desc(self.args), self.out,
                                  desc(self.val))


class Path:
    def __init__(self, vec, rng, worker):
        self.vec = vec
        self.rng = rng
        self.w = worker
        self.decisions = []
        self.phase = None
        self.trace = []
        self.tpos = 0
        self.setup_choices = []
        self.setup_pos = 0
        self.named = {}
        self.cnt = {}
        self.twins = {}
        self.violation = None
        self.conf = {}
        self.pools = [{}, {}]
        self.hist = False
        self.patches = []
        self.evclasses = {}
        self.keep = []
        self.tags = set()
        self.side = 'impl'

    # decisions
    def _pick(self, n, label=''):
        k = len(self.decisions)
        if k < len(self.vec):
            i = self.vec[k]
            if i >= n:
                i = n - 1
        elif self.rng is not None:
            i = self.rng.randrange(n)
        else:
            i = 0
        self.decisions.append((n, i))
        return i

    def choose(self, n, label=''):
        if self.phase == 'setup2':
            i = self.setup_choices[self.setup_pos]
            self.setup_pos += 1
            return i
        i = self._pick(n, label) if n > 1 else 0
        if self.phase == 'setup':
            self.setup_choices.append(i)
        return i

    # events
    def outcomes(self, kind, args, h):
        c = self.conf
        for key in (kind,):
            if key in c:
                return c[key]
        r = h.get('results') if h else None
        x = h.get('exc') if h else None
        if r is None:
            r = DEFAULT_RESULTS.get(kind)
            if r is None:
                r = ['obj', 'self'] if kind.startswith('op:') else ['obj']
            if h and h.get('result') == 'truth':
                r = [True, False, 'truthobj']
            elif h and h.get('result') == 'bool':
                r = [True, False]
            elif h and h.get('result') == 'none':
                r = [None]
            elif h and h.get('result') == 'str':
                r = ['text']
        if x is None:
            x = c.get('exc', self.w.default_exc(kind))
        return [('ret', v) for v in r] + [('exc', v) for v in x]

    def event(self, kind, args, h=None):
        if self.phase == 'spec':
            return self.replay(kind, args)
        if self.phase != 'impl':
            raise TypeError('event %s during %s' % (kind, self.phase))
        opts = self.outcomes(kind, args, h)
        if len(self.trace) > 300:
            opts = [('exc', EnvError)]
            self.tags.add('long trace')
        out, v = opts[self._pick(len(opts), kind)]
        if out == 'exc':
            v = v('env %d' % len(self.trace)) if isinstance(v, type) \
                else v(self, args)
        else:
            v = self.value(v, kind, args)
        self.trace.append(Event(kind, args, out, v))
        if out == 'exc':
            raise v
        return v

    def value(self, v, kind, args):
        if v == 'obj' or v == 'truthobj' or v == 'iter':
            nm = 'r%d' % len(self.trace)
            cls = mock_class('res', boolev=(v == 'truthobj'))
            o = mk(cls, nm)
            self.keep.append(o)
            return o
        if v == 'self':
            return args[0]
        if v == 'arg1':
            return args[1]
        if callable(v) and isinstance(v, types.FunctionType):
            return v(self, args)
        return v

    def fail(self, msg):
        if self.violation is None:
            self.violation = msg
        raise Mismatch(msg)

    def replay(self, kind, args):
        if self.tpos >= len(self.trace):
            self.fail('the code does not perform %s%s' % (kind, desc(args)))
        ev = self.trace[self.tpos]
        self.tpos += 1
        if ev.kind != kind:
            self.fail('the code performs %s%s where the property demands '
                      '%s%s' % (ev.kind, desc(ev.args), kind, desc(args)))
        if not self.same(ev.args, args):
            self.fail('%s receives %s instead of %s' % (
                kind, desc(ev.args), desc(args)))
        if ev.out == 'exc':
            raise ev.val
        return ev.val

    # comparison
    def same(self, a, b, memo=None):
        if a is b:
            return True
        tw = self.twins.get(id(a))
        if tw is not None:
            if tw[1] is b:
                return True
            return self._imm(a) and self._imm(b) and type(a) is type(b) \
                and a == b
        memo = memo or set()
        key = (id(a), id(b))
        if key in memo:
            return True
        memo = memo | {key}
        ta, tb = type(a), type(b)
        if tb.__name__ == 'Same':
            return b.either if a else True
        if tb is Unordered:
            return isinstance(a, (list, tuple)) and \
                sorted(a) == sorted(b.items)
        if ta is not tb:
            if isinstance(a, dict) and isinstance(b, dict) and \
                    ta.__name__ in ('VDict', 'dict') and \
                    tb.__name__ in ('VDict', 'dict'):
                pass
            else:
                return False
        if self.w.is_proxy(a):
            oa, ca = self.w.referents(a)
            ob, cb = self.w.referents(b)
            return self.same(oa, ob, memo) and self.same(ca, cb, memo)
        if is_mock(a):
            return False
        if self._imm(a):
            return a == b or (a != a and b != b)
        if ta is tuple or isinstance(a, list):
            la = list(tuple.__iter__(a)) if ta is tuple else list.__iter__(a)
            lb = list(tuple.__iter__(b)) if ta is tuple else list.__iter__(b)
            la, lb = list(la), list(lb)
            return len(la) == len(lb) and all(
                self.same(x, y, memo) for x, y in zip(la, lb))
        if isinstance(a, dict):
            if dict.__len__(a) != dict.__len__(b):
                return False
            ia, ib = list(dict.items(a)), list(dict.items(b))
            used = set()
            for k, v in ia:
                for j, (k2, v2) in enumerate(ib):
                    if j not in used and self.same(k, k2, memo) and \
                            self.same(v, v2, memo):
                        used.add(j)
                        break
                else:
                    return False
            return True
        if isinstance(a, (set, frozenset)):
            try:
                return a == b
            except Exception:
                return False
        if isinstance(a, BaseException):
            if isinstance(a, ENV_EXC):
                return False
            if isinstance(a, self.w.arg_excs):
                return self.same(a.args, b.args, memo)
            return True
        if ta is MockMethod:
            return a.obj is b.obj and a.name == b.name
        if ta is types.MethodType:
            return a.__func__ is b.__func__ and self.same(
                a.__self__, b.__self__, memo)
        if ta is types.BuiltinMethodType:
            return a.__name__ == b.__name__ and self.same(
                a.__self__, b.__self__, memo)
        r = self.w.same_hook(self, a, b, memo)
        if r is not None:
            return r
        if ta is types.FunctionType:
            return a.__code__ is b.__code__ and self.same(
                [c.cell_contents for c in (a.__closure__ or ())],
                [c.cell_contents for c in (b.__closure__ or ())], memo) and \
                self.same(a.__defaults__, b.__defaults__, memo)
        if isinstance(a, type):
            return False
        d = getattr(a, '__dict__', None)
        if d is not None:
            return self.same(dict(vars(a)), dict(vars(b)), memo)
        return False

    @staticmethod
    def _imm(a):
        return isinstance(a, (str, bytes, int, float, complex, bool,
                              type(None), range, slice)) and not is_mock(a)

    def walk(self, x, out=None, memo=None):
        """The mutable objects reachable from x, in a fixed order."""
        if out is None:
            out, memo = [], set()
        if id(x) in memo:
            return out
        memo.add(id(x))
        if self._imm(x) or isinstance(x, type) or is_mock(x):
            return out
        out.append(x)
        if self.w.is_proxy(x):
            for y in self.w.referents(x):
                self.walk(y, out, memo)
        elif type(x) is tuple or isinstance(x, list):
            for y in x:
                self.walk(y, out, memo)
        elif self.w.parts(x) is not None:
            for y in self.w.parts(x):
                self.walk(y, out, memo)
        elif type(x) not in (types.FunctionType, types.ModuleType):
            if isinstance(x, dict):
                for k, y in dict.items(x):
                    self.walk(k, out, memo)
                    self.walk(y, out, memo)
            d = getattr(x, '__dict__', None)
            if type(d) is dict:
                for k, y in d.items():
                    if not (type(x) is Env and k[0] == '_'):
                        self.walk(y, out, memo)
        return out

    def content(self, x):
        """One level of a mutable object."""
        if self.w.is_proxy(x):
            return tuple(self.w.referents(x))
        if self.w.parts(x) is not None:
            return (self.w.tables(x), getattr(x, '__dict__', None))
        if isinstance(x, list):
            return tuple(list.__iter__(x))
        d = None
        if type(x) not in (types.FunctionType, types.ModuleType, tuple):
            d = getattr(x, '__dict__', None)
            d = dict(d) if type(d) is dict and type(x) is not Env else None
        if isinstance(x, dict):
            return (dict(dict.items(x)), d)
        if isinstance(x, set):
            return (set(x), d)
        return (d,)

    def final_state(self):
        """Objects that exist from the start must end up alike."""
        for a, b in list(self.twins.values()):
            if type(a) is not tuple and not self.same(self.content(a),
                                                      self.content(b)):
                return 'final state of %s is %s, must be %s' % (
                    desc(a), desc(self.content(a)), desc(self.content(b)))

    def twin(self, was, now):
        """Register the corresponding objects of two setups."""
        for a, b in zip(was, now):
            if a is b or type(a) is not type(b):
                continue
            self.keep.append((a, b))
            self.twins[id(a)] = (a, b)


_NI = NotImplemented
DEFAULT_RESULTS = {
    'op:__int__': [7, 'obj'], 'op:__float__': [1.5, 'obj'],
    'op:__complex__': [1j, 'obj'],
    'op:__index__': [3, 'obj'], 'op:__len__': [0, 5, -1, 'obj'],
    'op:__hash__': [42, 'obj'], 'op:__bool__': [True, False, 'obj'],
    'op:__str__': ['text', 'obj'], 'op:__repr__': ['text', 'obj'],
    'op:__contains__': [True, False, 'truthobj'],
    'op:__lt__': [True, False, 'obj', _NI], 'op:__le__': [True, False, 'obj', _NI],
    'op:__gt__': [True, False, 'obj', _NI], 'op:__ge__': [True, False, 'obj', _NI],
    'op:__eq__': [True, False, 'obj', _NI], 'op:__ne__': [True, False, 'obj', _NI],
    'setattr': [None], 'delattr': [None], 'op:__setitem__': [None],
    'op:__delitem__': [None],
}
for _n in BINOPS:
    DEFAULT_RESULTS['op:__%s__' % _n] = ['obj', _NI]
    DEFAULT_RESULTS['op:__r%s__' % _n] = ['obj', _NI]
    DEFAULT_RESULTS['op:__i%s__' % _n] = ['self', 'obj', _NI]


class CCtx:
    """The context handed to setup/impl/spec."""
    engine = 'conc'

    def __init__(self, path, worker, contract):
        self.p = path
        self.w = worker
        self.k = contract
        self.variant = contract.variant
        self.is_c = worker.is_c
        self.watch = worker.watch
        self.S = worker.S            # namespace of code under test

    # names -----------------------------------------------------------
    def _key(self, name):
        p = self.p
        if p.hist:
            i = p.choose(2, 'which %s' % name)
            return (name, i)
        return (name, 0)

    def flag(self, name=''):
        return bool(self.p.choose(2, name))

    def choice(self, name, options):
        options = list(options)
        return options[self.p.choose(len(options), name)]

    def obj(self, name, methods=(), fields=None, isa=(), truth=True,
            ops='all', eqev=False, hashev=False, textev=False, classev=False,
            without=(), fixed=False, attrs=(), meta=None):
        key = ('obj', name, 0) if fixed else ('obj',) + self._key(name)
        o = self.p.named.get(key)
        if o is None:
            nm = name if key[2] == 0 else '%s/%d' % (name, key[2])
            boolev = truth == 'event'
            tr = truth is not False
            cls = mock_class(nm, tuple(isa), ops, eqev, hashev, boolev,
                             textev, tuple(without), meta, tuple(attrs))
            if not isinstance(methods, dict):
                methods = {m: {} for m in methods}
            f = {}
            o = mk(cls, nm, dict(methods), f, tr, classev)
            if callable(fields):
                fields = fields(o)
            for k, v in (fields or {}).items():
                f[k] = v
            self.p.named[key] = o
        return o

    def truthy(self, name, o):
        """Choose the truth value of a mock."""
        _oga(o, '_vs').truth = self.flag('truth of ' + name)
        return o

    def type(self, name, bases=()):
        key = ('type',) + self._key(name)
        o = self.p.named.get(key)
        if o is None:
            o = self.p.named[key] = type(name, tuple(bases) or (object,),
                                         {'__module__': 'env'})
        return o

    def str(self, name, dom=(), mined=True):
        d = list(dom)
        if mined:
            d += [s for s in self.w.mined(self.k) if s not in d]
        i = self.p.choose(len(d), name)
        if type(d[i]) is not str:
            return type(d[i])(d[i])
        # a fresh copy: its references can be counted
        return ''.join([d[i][:1], d[i][1:]]) if len(d[i]) > 1 else d[i]

    def seq(self, name, elem, n=2, kind=tuple, distinct=False):
        """A sequence of any length (bounded by n here)."""
        m = self.p.choose(n + 1, 'len ' + name)
        return kind(elem(self, i, '%s[%d]' % (name, i)) for i in range(m))

    def table(self, name, keys, vals, default=None):
        """A mapping from any names to any of the given kinds of values."""
        d = {}
        for k in keys:
            opts = list(vals)
            i = self.p.choose(len(opts) + 1, '%s[%s]' % (name, k))
            if i:
                v = opts[i - 1]
                d[k] = v() if isinstance(v, types.FunctionType) else v
        return d

    def pool(self, name, factory):
        p = self.p
        if not p.hist:
            return factory()
        which = p.pools[1 if p.phase == 'setup2' else 0].setdefault(name, [])
        n = len(which)
        i = p.choose(n + (1 if n < 2 else 0), 'pool ' + name)
        if i == n:
            which.append(factory())
        return which[i]

    def ghost(self, name, factory):
        """State that lives as long as the history."""
        p = self.p
        which = p.pools[1 if p.phase == 'setup2' else 0]
        if ('ghost', name) not in which:
            which['ghost', name] = factory()
        return which['ghost', name]

    @property
    def side(self):
        return self.p.side

    def patch(self, owner, name, value):
        self.w.patch(self.p, owner, name, value)

    def conf(self, **kw):
        for k, v in kw.items():
            self.p.conf[k.replace('__op', 'op:')] = v

    def outcomes(self, kind, rets, excs=None):
        """The possible answers to one kind of event."""
        ex = self.w.default_exc(kind) if excs is None else excs
        self.p.conf[kind] = [('ret', v) for v in rets] + [
            ('exc', v) for v in ex]

    def excs(self, *classes):
        self.p.conf['exc'] = list(classes)

    def bounded_only(self, why):
        pass

    # run-time (impl/spec) ----------------------------------------------
    def wrap(self, obj, checker):
        """A proxy built by the code under test."""
        return self.S.Proxy(obj, checker)

    def capture(self, f):
        """Outcome of a sub-operation as a value."""
        try:
            return ('ret', f())
        except EngineExc:
            raise
        except BaseException as e:
            return ('exc', e)

    def forget_events(self):
        """The events so far are of no interest."""
        self.p.trace = []

    def has_exc(self, e):
        """For use in broad except clauses of specifications."""
        if isinstance(e, EngineExc):
            raise e
        return e

    @staticmethod
    def same_arg(p, args):
        """Outcome: the (first) argument itself."""
        return args[1][0] if isinstance(args[1], tuple) else args[1]

    def require(self, cond):
        """Precondition on the inputs chosen so far."""
        if not cond:
            raise Infeasible()

    def slot(self, x, name, *args):
        """The operation of the class of x."""
        f = getattr(type(x), name, None)
        if f is None:
            raise TypeError(name)
        return f(x, *args)

    def type_defines(self, t, name):
        return any(name in k.__dict__ for k in t.__mro__
                   if k.__name__ != 'AbstractPyProxyBase')

    def own_method(self, x, name):
        for k in type(x).__mro__:
            if name in k.__dict__ and k.__name__ != 'AbstractPyProxyBase':
                d = k.__dict__[name]
                return d.__get__(x, type(x)) if hasattr(d, '__get__') else d

    class odd_class:
        __module__ = '\udc80'
    odd_class.__name__ = 'a b'

