"""Runs contracts in one configuration of one tree (a separate process).

    worker.py TREE CONFIG MODE OUT KEY... [--replay VEC]

TREE   scratch copy holding zope/security (with compiled extensions for C)
CONFIG py | c | wpy | wc   (w = ZOPE_WATCH_CHECKERS=1)
MODE   conc | sym
"""
import gc
import importlib
import json
import os
import random
import re
import signal
import sys
import threading
import time
import traceback
import types

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


RUN_LIMIT = 20          # seconds for one run of one contract


class NS:
    pass


def isinstance(x, cls):
    """The real type counts: proxies answer for the object they hold."""
    return issubclass(type(x), cls)


class Worker:

    def __init__(self, tree, config, mode):
        self.tree = tree
        self.config = config
        self.is_c = config.endswith('c')
        self.watch = config.startswith('w')
        self.mode = mode
        os.environ['PURE_PYTHON'] = '0' if self.is_c else '1'
        if self.watch:
            os.environ['ZOPE_WATCH_CHECKERS'] = '1'
        else:
            os.environ.pop('ZOPE_WATCH_CHECKERS', None)
        import site
        site.addsitedir('/opt/venv/lib/python3.12/site-packages')
        sys.path.insert(0, VERIF)
        import zope
        zope.__path__ = [os.path.join(tree, 'zope')] + [
            p for p in zope.__path__ if not p.startswith('/repo/')]

    def load(self):
        """Import the code under test."""
        S = self.S = NS()
        import zope.security.interfaces as interfaces
        import zope.security.proxy as proxy
        import zope.security.checker as checker
        import zope.security.management as management
        import zope.security._definitions as definitions
        S.interfaces, S.proxy, S.checker = interfaces, proxy, checker
        S.management, S.definitions = management, definitions
        for m in ('simplepolicies', 'adapter', 'decorator', 'protectclass',
                  'metaconfigure', 'permission', 'zcml', 'testing'):
            setattr(S, m, importlib.import_module('zope.security.' + m))
        assert checker.__file__.startswith(self.tree), checker.__file__
        S.Proxy = proxy.Proxy
        S.Checker = checker.Checker
        S.CheckerPublic = checker.CheckerPublic
        S.NoProxy = checker.NoProxy
        S.Unauthorized = interfaces.Unauthorized
        S.ForbiddenAttribute = interfaces.ForbiddenAttribute
        S.Forbidden = interfaces.Forbidden
        S.NoInteraction = interfaces.NoInteraction
        S.thread_locals = {
            id(x): x for m in (definitions, management)
            for x in vars(m).values() if isinstance(x, threading.local)}
        S.thread_locals = list(S.thread_locals.values())
        S.thread_local = getattr(definitions, 'thread_local', None) or (
            S.thread_locals + [types.SimpleNamespace()])[0]
        if self.is_c:
            import zope.security._proxy as cp
            import zope.security._zope_security_checker as cc
            assert cp.__file__.startswith(self.tree)
            S.cproxy, S.cchecker = cp, cc
            assert S.Proxy is cp._Proxy
        else:
            assert S.Proxy is proxy.ProxyPy

        from vc import conc
        self.conc = conc

        class EnvForbidden(S.ForbiddenAttribute):
            pass

        class EnvUnauthorized(S.Unauthorized):
            pass
        S.EnvForbidden, S.EnvUnauthorized = EnvForbidden, EnvUnauthorized
        conc.ENV_EXC = conc.ENV_EXC + (EnvForbidden, EnvUnauthorized)
        for n in ('EnvError', 'EnvAttributeError', 'EnvTypeError',
                  'EnvBaseError'):
            setattr(S, n, getattr(conc, n))
        self.arg_excs = (S.Forbidden, S.Unauthorized)
        S.SubProxy = type('SubProxy', (S.Proxy,), {
            '__slots__': (), '__module__': 'env'})
        import ctypes
        api = ctypes.PyDLL(None)
        o, n = ctypes.c_void_p, ctypes.c_ssize_t
        for f, r, a in (
                ('PySequence_GetItem', ctypes.py_object, (o, n)),
                ('PySequence_SetItem', ctypes.c_int, (o, n, o)),
                ('PySequence_DelItem', ctypes.c_int, (o, n))):
            f = getattr(api, f)
            f.restype, f.argtypes = r, a
        self.capi = api
        self.checker_types = (checker.CheckerPy, S.Checker)
        if self.is_c:
            self.checker_types += (S.cchecker.Checker,)
        if self.watch:
            class Sink:
                write = flush = staticmethod(lambda *a: None)
            checker.CheckerLoggingMixin._file = Sink
        self.longlived = [
            S.Proxy, S.SubProxy, S.Checker, S.CheckerPublic, S.NoProxy,
            S.Unauthorized,
            S.ForbiddenAttribute, S.NoInteraction, EnvForbidden,
            EnvUnauthorized, checker._checkers, checker._defaultChecker,
            checker.selectChecker, S.thread_local, TypeError, ValueError,
            AttributeError] + list(conc.ENV_EXC)
        from zope.exceptions import DuplicationError
        S.DuplicationError = DuplicationError
        S.I = fixtures()
        self.base = self.snap_globals()
        self.defaults = dict(checker._default_checkers)

    # values protected by default (C14) -----------------------------------
    def rock_types(self):
        import datetime
        import zope.interface.declarations as d
        from zope.i18nmessageid import Message
        r = {object, int, float, complex, type(None), str, bytes, Message,
             bool, datetime.timedelta, datetime.datetime, datetime.date,
             datetime.time, datetime.tzinfo, datetime.timezone,
             type({}.values()), type({}.keys()), type({}.items()),
             self.S.Proxy, d.Provides, d.Implements, d.Declaration,
             range, slice, type(Ellipsis), type(NotImplemented)}
        I = self.S.I
        r |= {type(x) for x in I.provided}
        try:
            import pytz
            r.add(type(pytz.UTC))
        except ImportError:
            pass
        return r

    def declaration_names(self):
        from zope.interface import interfaces as i
        names = {'_implied', 'subscribe', 'unsubscribe', '__call__',
                 '__str__', '__len__'}
        for f in (i.IDeclaration, i.IInterface, i.IMethod):
            names |= set(f.names(all=True))
        return names

    _live = None

    def live_values(self, kind):
        if self._live is not None:
            return self._live[kind]
        import abc
        import collections
        import datetime
        import decimal
        import io
        import itertools
        import weakref
        from zope.i18nmessageid import Message
        from zope.interface import Interface, implementedBy, directlyProvides
        I = self.S.I

        class Sub:
            pass

        class Seq:
            def __len__(self):
                return 0

            def __getitem__(self, i):
                raise IndexError(i)

        def func():
            pass

        def gen():
            yield 1

        class C:
            def method(self):
                pass

        class A(abc.ABC):
            pass
        keep = C()
        odict = collections.OrderedDict([(1, 2)])
        L = dict(
            container=[{}, {1: 2}, [], [1], set(), {1}, frozenset([1]), (),
                       (1,), odict] if 0 else [
                {}, {1: 2}, [], [1], set(), {1}, frozenset([1]), (), (1,)],
            callable=[func, keep.method, len, [].append,
                      io.BytesIO().getbuffer, ().__repr__, lambda: 1,
                      weakref.ref(keep)],
            **{'class': [C, int, dict, type, A, Seq]},
            iterator=[iter([]), iter(()), iter({}), iter(set()), iter(Seq()),
                      gen(), iter({}.items()), iter({}.values()),
                      iter(odict), iter(odict.items()),
                      itertools.groupby([0]), itertools.count(),
                      itertools.cycle(()), itertools.islice((1,), 1),
                      itertools.chain() if 0 else itertools.repeat(1, 2),
                      itertools.product((1,)), itertools.tee((1,))[0],
                      itertools.zip_longest((1,)),
                      itertools.accumulate((1,)),
                      itertools.permutations((1,)),
                      itertools.takewhile(len, ()),
                      itertools.dropwhile(len, ()),
                      itertools.starmap(len, ()),
                      itertools.compress((), ()),
                      itertools.combinations((1,), 1),
                      itertools.combinations_with_replacement((1,), 1)],
            module=[io, I.module],
            declaration=[Interface, I.IDerived, I.IBase['base'],
                         I.class_provides],
            number=[decimal.Decimal('1.5')],
            rock=[1, 1.5, 1j, None, 'x', b'x', True, Message('m'),
                  datetime.timedelta(1), datetime.datetime(2003, 1, 1),
                  datetime.date(2003, 1, 1), datetime.time(1),
                  {}.keys(), {}.values(), {}.items(), object()] +
            I.provided,
        )
        self._keep = keep
        Worker._live = self._live = L
        return L[kind]

    # globals of the code under test ------------------------------------
    def snap_globals(self):
        S = self.S
        return dict(
            checkers=dict(S.checker._checkers),
            basic=dict(dict.items(S.checker.BasicTypes)),
            mods=[(m, dict(vars(m))) for m in vars(S).values()
                  if isinstance(m, types.ModuleType)],
        )

    def reset_globals(self, p=None):
        S = self.S
        if p is not None:
            for owner, name, had, old in reversed(p.patches):
                if had:
                    setattr(owner, name, old)
                else:
                    delattr(owner, name)
            p.patches = []
        d = S.checker._checkers
        if len(d) != len(self.base['checkers']) or d != self.base['checkers']:
            dict.clear(d)
            dict.update(d, self.base['checkers'])
        b = S.checker.BasicTypes
        if dict(dict.items(b)) != self.base['basic']:
            dict.clear(b)
            dict.update(b, self.base['basic'])
        for m, ns in self.base['mods']:
            cur = vars(m)
            for k in list(cur):
                if k not in ns:
                    del cur[k]
                elif cur[k] is not ns[k]:
                    cur[k] = ns[k]
            for k in ns:
                if k not in cur:
                    cur[k] = ns[k]
        S.thread_local.__dict__.clear()

    def patch(self, p, owner, name, value):
        had = name in vars(owner) if not hasattr(owner, '__slots__') or \
            hasattr(owner, '__dict__') else hasattr(owner, name)
        p.patches.append((owner, name, had, vars(owner).get(name)))
        setattr(owner, name, value)

    # structure hooks ------------------------------------------------------
    def is_proxy(self, x):
        return issubclass(type(x), self.S.Proxy)

    def referents(self, x):
        if self.is_c:
            r = gc.get_referents(x)
            r = [y for y in r if y is not type(x)] if len(r) > 2 else r
            return (r + [None, None])[:2]
        g = object.__getattribute__
        out = []
        for n in ('_wrapped', '_checker'):
            try:
                out.append(g(x, n))
            except AttributeError:
                out.append(None)
        return out

    def parts(self, x):
        if isinstance(x, self.checker_types):
            if self.is_c and type(x) in self.checker_types:
                # (asking a C checker for a missing table would make one)
                tables = [y for y in gc.get_referents(x) if type(y) is dict]
                if len(tables) < 3:
                    return tuple(tables)
            return (x.get_permissions, x.set_permissions)
        return None

    def tables(self, x):
        get, set_ = (self.parts(x) + ({}, {}))[:2]
        return get, set_ if set_ else {}

    def same_hook(self, p, a, b, memo):
        if isinstance(a, self.checker_types):
            return p.same(self.tables(a), self.tables(b), memo)
        return None

    def default_exc(self, kind):
        S = self.S
        if kind.startswith('call:check'):
            return [lambda p, a: S.EnvForbidden('n', 'o'),
                    lambda p, a: S.EnvUnauthorized('o', 'n', 'p'),
                    S.EnvError, S.EnvTypeError, S.EnvBaseError]
        if kind in ('getattr', 'setattr', 'delattr'):
            return [S.EnvError, S.EnvAttributeError]
        if kind in ('op:__next__',):
            return [S.EnvError, lambda p, a: StopIteration(5)]
        return [S.EnvError]

    # constants of the source ------------------------------------------------
    _csrc = None

    def mined(self, k):
        out = getattr(k, '_mined_' + self.config, None)
        if out is not None:
            return out
        out = []
        import ast
        for f in k.functions:
            if not isinstance(f, str) or ':' not in f:
                continue
            mod, qual = f.split(':')
            if mod.endswith('.c'):
                if Worker._csrc is None:
                    Worker._csrc = {}
                path = os.path.join(self.tree, 'zope/security', mod)
                if path not in Worker._csrc:
                    s = open(path).read()
                    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
                    Worker._csrc[path] = s
                if self.is_c:
                    body = cfunc(Worker._csrc[path], qual)
                    for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', body):
                        out.append(m.group(1))
                    for m in re.finditer(r'\bstr_(\w+)', body):
                        out.append(m.group(1))
                continue
            path = os.path.join(self.tree, mod.replace('.', '/') + '.py')
            if not os.path.exists(path):
                continue
            tree = _ast(path)
            node = find(tree, qual)
            if node is None:
                continue
            doc = ast.get_docstring(node, clean=False) \
                if isinstance(node, (ast.FunctionDef, ast.ClassDef)) else None
            for n in ast.walk(node):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) \
                        and n.value != doc:
                    out.append(n.value)
        res = []
        for s in out:
            if re.match(r'^[A-Za-z_][A-Za-z_0-9]{0,30}$', s) and s not in res:
                res.append(s)
        res = res[:40]
        setattr(k, '_mined_' + self.config, res)
        return res


class Fixtures:
    """Interfaces and other things contracts need (nothing of /repo)."""


def fixtures():
    from zope.interface import Interface, Attribute, implementer, \
        alsoProvides, providedBy, directlyProvides
    F = Fixtures()

    class IEmpty(Interface):
        pass

    class IBase(Interface):
        spam = Attribute('an attribute')

        def base(x):
            """A method"""

    class IDerived(IBase):
        def derived():
            """Another method"""

    F.IEmpty, F.IBase, F.IDerived = IEmpty, IBase, IDerived
    from zope.schema import TextLine

    class ISchema(Interface):
        x = TextLine(title='x')
        fixed = TextLine(title='fixed', readonly=True)
        plain = Attribute('not a field')

        def method():
            pass

    class ISubSchema(ISchema):
        sub = TextLine(title='sub', required=False)
        fixed2 = TextLine(title='fixed2', readonly=True)

    F.ISchema, F.ISubSchema = ISchema, ISubSchema
    F.NAMES = {IEmpty: [], IBase: ['spam', 'base'],
               IDerived: ['spam', 'base', 'derived'],
               ISchema: ['x', 'fixed', 'plain', 'method'],
               ISubSchema: ['x', 'fixed', 'plain', 'method', 'sub',
                            'fixed2']}
    F.WRITABLE = {IBase: [], IDerived: [], IEmpty: [], ISchema: ['x'],
                  ISubSchema: ['x', 'sub']}
    F.Like = type('Like', (), {'__module__': 'env'})
    F.module2 = types.ModuleType('env_module2')

    @implementer(IBase)
    class O:
        pass
    o = O()
    a = providedBy(o)
    alsoProvides(o, IEmpty)
    F.provided = [a, providedBy(o)]
    directlyProvides(O, IEmpty)
    F.class_provides = O.__provides__
    F.module = types.ModuleType('env_module')

    class Meta(type):
        pass
    F.Meta_instance = Meta('Meta_instance', (), {})
    return F


_asts = {}


def _ast(path):
    import ast
    if path not in _asts:
        _asts[path] = ast.parse(open(path).read())
    return _asts[path]


def find(tree, qual):
    import ast
    node = tree
    if qual in ('', '*'):
        return tree
    for part in qual.split('.'):
        for n in getattr(node, 'body', []):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and \
                    n.name == part:
                node = n
                break
        else:
            return None
    return node


def cfunc(src, name):
    if name == '*':
        return src
    m = re.search(r'^(?:static[^\n;]*\n)?%s\([^;{]*\)\s*\{' % re.escape(name),
                  src, re.M)
    if not m:
        return ''
    i = m.end()
    j = src.find('\n}', i)
    return src[i:j]


# ---------------------------------------------------------------------------
class ConcRunner:

    def __init__(self, w, seed, limits, vecfile):
        self.w = w
        self.seed = seed
        self.limits = limits
        self.fd = os.open(vecfile, os.O_RDWR | os.O_CREAT) if vecfile else -1

    def note(self, k, vec, mode):
        if self.fd >= 0:
            s = json.dumps([k.key, mode, vec]).encode()
            os.pwrite(self.fd, s + b'\n' + b'\0' * 64, 0)

    def run(self, k, vec, rng=None, steps=1, hist=False, again=False):
        conc = self.w.conc
        signal.setitimer(signal.ITIMER_REAL, RUN_LIMIT)
        try:
            return self.run1(k, vec, rng, steps, hist, again)
        except conc.Hang:
            p = conc.CUR or self.last
            conc.CUR = None
            self.w.reset_globals(p)
            p.violation = 'the code does not come to an end'
            p.outs = p.outs2 = []
            return p
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def broken_setup(self, p, x):
        """Preparing the inputs uses the code under test, too."""
        tb = x.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(self.w.tree):
                p.violation = 'preparing the inputs raises %s' % (
                    self.w.conc.desc(x))
                return True
            tb = tb.tb_next

    def run1(self, k, vec, rng=None, steps=1, hist=False, again=False):
        # (again: the very same call several times, not a history of others)
        w = self.w
        conc = w.conc
        p = conc.Path(vec, rng, w)
        p.hist = hist
        conc.CUR = self.last = p
        c = conc.CCtx(p, w, k)
        envs, outs, outs2, envs2, walks = [], [], [], [], []
        obs = obs2 = None
        inst = k()
        try:
            w.reset_globals()
            for s in range(steps):
                p.phase = 'setup'
                e = envs[0] if again and s else inst.setup(c)
                envs.append(e)
                walks.append(p.walk(e))
                p.phase = 'impl'
                outs.append(self.outcome(inst.impl, c, e))
                p.phase = 'setup'
            p.phase = 'observe'
            if k.observe:
                obs = [inst.observe(c, e) for e in envs]
            w.reset_globals(p)
            p.side = 'spec'
            for s in range(steps):
                p.phase = 'setup2'
                e = envs2[0] if again and s else inst.setup(c)
                envs2.append(e)
                if not (again and s):
                    p.twin(walks[s], p.walk(e))
                p.phase = 'spec'
                outs2.append(self.outcome(inst.spec, c, e))
                p.phase = 'setup2'
            p.phase = 'observe'
            if k.observe:
                obs2 = [inst.observe(c, e) for e in envs2]
            if p.violation is None and p.tpos < len(p.trace):
                p.violation = 'the code performs an extra operation: %r' % (
                    p.trace[p.tpos],)
            if p.violation is None:
                for s in range(steps):
                    m = self.cmp_out(p, outs[s], outs2[s])
                    if m:
                        p.violation = m
                        break
            if p.violation is None:
                for s in range(steps):
                    for n in vars(envs2[s]):
                        if n[0] != '_' and not p.same(getattr(envs[s], n),
                                      getattr(envs2[s], n)):
                            p.violation = 'final state of %s is %s, must be '\
                                '%s' % (n, conc.desc(getattr(envs[s], n)),
                                        conc.desc(getattr(envs2[s], n)))
                            break
            if p.violation is None:
                m = p.final_state()
                if m:
                    p.violation = m
            if p.violation is None and k.observe and not p.same(obs, obs2):
                p.violation = 'observed final state is %s, must be %s' % (
                    conc.desc(obs), conc.desc(obs2))
        except conc.Mismatch as e:
            p.violation = p.violation or str(e)
        except conc.Infeasible:
            p.violation = None
            p.infeasible = True
        except conc.Hang:
            raise
        except Exception as x:
            if p.phase not in ('setup', 'setup2', 'observe') or \
                    not self.broken_setup(p, x):
                raise
        finally:
            p.phase = None
            w.reset_globals(p)
            conc.CUR = None
        p.outs, p.outs2 = outs, outs2
        return p

    def outcome(self, f, c, e):
        conc = self.w.conc
        try:
            return ('ret', f(c, e))
        except conc.EngineExc:
            raise
        except BaseException as x:
            if isinstance(x, (MemoryError, RecursionError)):
                raise
            return ('exc', x)

    def cmp_out(self, p, a, b):
        conc = self.w.conc
        from vc.dsl import AnyException
        if b[0] == 'exc' and isinstance(b[1], AnyException):
            if a[0] == 'exc' and isinstance(
                    a[1], b[1].args or BaseException):
                return None
        elif a[0] == b[0] and p.same(a[1], b[1]):
            return None

        def t(o):
            return ('returns ' if o[0] == 'ret' else 'raises ') + \
                conc.desc(o[1])
        return 'the call %s; the property demands that it %s' % (t(a), t(b))

    def signature(self, p):
        return (tuple((e.kind, e.out, type(e.val).__name__)
                      for e in p.trace),
                tuple(o[0] for o in p.outs))

    def counts(self):
        """(allocated blocks, total references to long-lived objects)."""
        gc.collect()
        sys._clear_type_cache()
        gc.collect()
        rc = sys.getrefcount
        t = 0
        for o in self.w.longlived:
            t += rc(o)
        for o in self.w.conc._classes.values():
            t += rc(o)
        return sys.getallocatedblocks(), t

    def leak(self, k, vec):
        """What 90 identical calls lose, if every batch of them loses."""
        for _ in range(4):
            self.run(k, vec)
        tot = [0, 0]
        # several batches of different sizes: a leak grows with the calls,
        # warming caches do not
        for n in (20, 40, 30):
            a = self.counts()
            for _ in range(n):
                self.run(k, vec)
            b = self.counts()
            for j in (0, 1):
                d = b[j] - a[j]
                if (abs(d) if j else d) < n:
                    tot[j] = None
                elif tot[j] is not None:
                    tot[j] += d
            if tot == [None, None]:
                return None
        return '%s blocks, %s references' % tuple(tot)

    def explore(self, k):
        res = dict(key=k.key, config=self.w.config, runs=0, sigs=0,
                   exhausted=False, violations=[], samples=[], histories=0,
                   events=0, leaks=0)
        cap = k.cap or self.limits['cap']
        t0 = time.time()
        sigs = set()
        # fewest deviations from the default choice first; every vector once
        level, nxt = [[]], []
        full = True
        while level or nxt:
            if not level:
                level, nxt = nxt, []
                if res['runs'] + len(level) > cap:
                    random.Random('%s/%s' % (self.seed, k.key)).shuffle(level)
                continue
            if res['runs'] >= cap or time.time() - t0 > self.limits['time']:
                full = False
                break
            vec = level.pop()
            self.note(k, vec, 'single')
            p = self.run(k, vec)
            res['runs'] += 1
            res['events'] += len(p.trace)
            if p.violation:
                self.report(res, k, p, 1)
                if len(res['violations']) >= 3:
                    return res
            d = p.decisions
            if len(nxt) < 400000:
                for j in range(len(d) - 1, len(vec) - 1, -1):
                    base = [x[1] for x in d[:j]]
                    for i in range(1, d[j][0]):
                        nxt.append(base + [i])
            sig = self.signature(p)
            if sig not in sigs:
                sigs.add(sig)
                if len(res['samples']) < 3:
                    res['samples'].append(self.sample(p))
                if self.w.is_c and k.refs and self.limits['leaks'] and \
                        not p.violation and res['leaks'] < 150:
                    lk = self.leak(k, [x[1] for x in d])
                    res['leaks'] += 1
                    if lk:
                        p.violation = 'references are lost: %s in '\
                            '90 identical calls' % lk
                        self.report(res, k, p, 1, kind='leak')
                        if len(res['violations']) >= 3:
                            return res
        res['exhausted'] = full
        if not full:
            for i in range(self.limits['sample']):
                rng = random.Random('s%s/%s/%d' % (self.seed, k.key, i))
                self.note(k, i, 'sample')
                p = self.run(k, [], rng)
                res['runs'] += 1
                if p.violation:
                    self.report(res, k, p, 1)
                    if len(res['violations']) >= 3:
                        return res
                sigs.add(self.signature(p))
                if time.time() - t0 > 2 * self.limits['time']:
                    break
        if k.history:
            th = time.time()
            for i in range(self.limits['hist']):
                rng = random.Random('h%s/%s/%d' % (self.seed, k.key, i))
                steps = rng.choice((2, 2, 3, 3, 4, 6))
                self.note(k, i, 'hist')
                p = self.run(k, [], rng, steps, True)
                res['histories'] += 1
                if p.violation:
                    self.report(res, k, p, steps)
                    if len(res['violations']) >= 3:
                        return res
                if time.time() - th > self.limits['time']:
                    break
        if k.again:
            th = time.time()
            for i in range(self.limits['hist']):
                rng = random.Random('a%s/%s/%d' % (self.seed, k.key, i))
                steps = rng.choice((2, 2, 3, 4))
                self.note(k, i, 'again')
                p = self.run(k, [], rng, steps, False, True)
                res['histories'] += 1
                if p.violation:
                    p.violation = 'called %d times: %s' % (steps, p.violation)
                    self.report(res, k, p, steps, again=True)
                    if len(res['violations']) >= 3:
                        return res
                if time.time() - th > self.limits['time']:
                    break
        res['sigs'] = len(sigs)
        res['wall'] = time.time() - t0
        return res

    def sample(self, p):
        return {'events': [repr(e) for e in p.trace[:12]],
                'outcome': [(o[0], self.w.conc.desc(o[1])) for o in p.outs]}

    def report(self, res, k, p, steps, kind='behaviour', again=False):
        v = dict(contract=k.key, config=self.w.config, kind=kind,
                 message=p.violation, steps=steps, again=again,
                 vector=[d[1] for d in p.decisions],
                 events=[repr(e) for e in p.trace[:30]],
                 outcome=[(o[0], self.w.conc.desc(o[1])) for o in p.outs],
                 tags=sorted(p.tags))
        res['violations'].append(v)


def load_contracts(only=None):
    names = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, 'contracts'))
                   if f.endswith('.py') and not f.startswith('_'))
    for n in names:
        importlib.import_module('contracts.' + n)
    from vc import dsl
    return dsl.REGISTRY


def applies(k, config):
    """Is the contract meant for this configuration?"""
    return config[-2:].lstrip('w') in k.configs and (
        k.watch or config[0] != 'w') and k.conc


def main(argv):
    tree, config, mode, out = argv[:4]
    keys = argv[4:]
    opts = json.loads(os.environ.get('VC_OPTS', '{}'))
    w = Worker(tree, config, mode)
    if mode == 'sym':
        from vc import explore
        return explore.main(w, out, keys, opts)
    w.load()
    reg = load_contracts()
    limits = dict(cap=3000, sample=400, hist=300, time=8.0, leaks=True)
    limits.update(opts.get('limits', {}))
    r = ConcRunner(w, opts.get('seed', 1), limits,
                   out + '.vec' if w.is_c else None)
    def hang(*a):
        raise w.conc.Hang()
    signal.signal(signal.SIGALRM, hang)
    if opts.get('replay'):
        v = opts['replay']
        k = reg[v['contract']]
        rng, steps = None, v.get('steps', 1)
        if v.get('rng'):
            rng = random.Random(v['rng'])
            if v['rng'][0] == 'h':
                steps = rng.choice((2, 2, 3, 3, 4, 6))
            elif v['rng'][0] == 'a':
                steps = rng.choice((2, 2, 3, 4))
        again = v.get('again', (v.get('rng') or 'h')[0] == 'a')
        p = r.run(k, v.get('vector', []), rng, steps,
                  steps > 1 and not again, again)
        lk = v.get('kind') == 'leak' and r.leak(k, v['vector'])
        with open(out, 'w') as f:
          json.dump(dict(violation=p.violation or (
            'references are lost: %s in 90 identical calls' % lk
            if lk else None), events=[repr(e) for e in p.trace],
            outcome=[(o[0], w.conc.desc(o[1])) for o in p.outs]), f)
        return
    results = []
    gc.collect()
    gc.freeze()
    for key in keys:
        k = reg[key]
        if not applies(k, config):
            continue
        try:
            results.append(r.explore(k))
        except BaseException as e:
            results.append(dict(key=key, config=config, error=''.join(
                traceback.format_exception(e))[-3000:], violations=[]))
        with open(out + '.tmp', 'w') as f:
            json.dump(results, f)
        os.replace(out + '.tmp', out)


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    sys.path = [p for p in sys.path if p != HERE]
    main(sys.argv[1:])
