"""The deductive engine: discharges the obligations of a contract.

For one contract the implementation (the instrumented source of the tree) is
executed on symbolic inputs; wherever the outcome of a step depends on a
symbolic value both answers are followed (if z3 finds them possible), so the
paths cover every input and every answer of the environment.  On each path
the specification is executed over the same inputs and the recorded
environment, and the obligations (same environment steps with the same
operands, same outcome, same final state) are discharged by z3, with cvc5 as
a second opinion.  Loops over sequences of unknown length are cut at their
heads with inferred invariants that are themselves obligations.
"""
import builtins
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
import types

import z3

from . import conc, rt, sym, transform
from .dsl import AnyException, Env
from .sym import (EngineExc, Infeasible, Mismatch, Obj, Path, PathEnd,
                  Pending, Restart, Splice, SymExc, SymInt, SymMethod, SymObj, SymStr,
                  Unsupported, VDict, VList, is_sym, st_of)

def real(x, cls):
    return issubclass(type(x), cls)


HERE = os.path.dirname(os.path.abspath(__file__))


class Budget(EngineExc):
    pass


class EngineError(EngineExc):
    """A mistake of the engine itself."""


EXC_ATTR = 'excattr'


class SCtx:
    """The context handed to setup/impl/spec (see conc.CCtx)."""
    engine = 'sym'

    def __init__(self, path, worker, contract):
        self.p = path
        self.w = worker
        self.k = contract
        self.variant = contract.variant
        self.is_c = worker.is_c
        self.watch = worker.watch
        self.S = worker.S
        self._elem = []

    # choices ----------------------------------------------------------
    def _fun(self, name, sort):
        """A function of the positions of the enclosing sequences."""
        nm = '%s.%s' % (self._elem[-1][0], name)
        ks = [k for _, k in self._elem]
        return z3.Function(nm, *([z3.IntSort()] * len(ks) + [sort]))(*ks)

    def _choose(self, n, label):
        p = self.p
        if self._elem:
            t = self._fun('ch!' + label, z3.IntSort())
            for i in range(n - 1):
                if p.branch(t == i, label):
                    return i
            return n - 1
        if p.phase == 'setup2':
            i = p.setup_choices[p.setup_pos]
            p.setup_pos += 1
            return i
        i = p.choose(n, label)
        if p.phase == 'setup':
            p.setup_choices.append(i)
        return i

    def flag(self, name=''):
        return bool(self._choose(2, name))

    def choice(self, name, options):
        options = list(options)
        return options[self._choose(len(options), name)]

    def _term(self, name):
        if self._elem:
            return self._fun(name, Obj)
        return z3.Const(name, Obj)

    def _key(self, kind, name):
        if self._elem:
            return (kind, name) + tuple(
                (nm, k.get_id()) for nm, k in self._elem)
        return (kind, name)

    def obj(self, name, methods=(), fields=None, isa=(), truth=True,
            ops='all', eqev=False, hashev=False, textev=False, classev=False,
            without=(), fixed=False, attrs=(), meta=None):
        p = self.p
        key = self._key('obj', name)
        o = p.named.get(key)
        if o is None:
            if meta is not None or [n for n, _ in attrs
                                    if n not in ('__repr__', '__str__',
                                                     '__format__')]:
                raise p.unsupported('object with a metaclass')
            t = self._term(name)
            p.keep.append(t)
            p.newobj_axioms(t)
            # different names, different objects
            n = p.labels.setdefault((bool(self._elem), name),
                                    len(p.labels) + 1)
            p.solver.add(sym.NUM(t) == (-n if self._elem else
                                        1000000 + n))
            if not real(methods, dict):
                methods = {m: {} for m in methods}
            o = SymObj(t, name, methods=dict(methods),
                       isa={b: True for b in isa},
                       truth='event' if truth == 'event' else 'pure',
                       eqv=not eqev, reprev=textev)
            s = st_of(o)
            s.extra = dict(ops=ops, without=tuple(without), hashev=hashev,
                           classev=classev, env=True, attrs=dict(attrs),
                           input=0 if self._elem else n)
            p.named[key] = o
            p.by_term[t.get_id()] = o
            if callable(fields):
                fields = fields(o)
            s.fields.update(fields or {})
            p.objs.append(o)
        return o

    def truthy(self, name, o):
        return o

    def type(self, name, bases=()):
        key = self._key('type', name)
        o = self.p.named.get(key)
        if o is None:
            o = self.p.named[key] = type(name, tuple(bases) or (object,),
                                         {'__module__': 'env'})
        return o

    def str(self, name, dom=(), mined=True):
        if self._elem:
            return SymStr(self._fun(name, z3.StringSort()))
        return SymStr(z3.String(name))

    def seq(self, name, elem, n=2, kind=tuple, distinct=False):
        p = self.p
        key = self._key('seq', name)
        cnt = self._fun(name + '.n', z3.IntSort()) if self._elem else \
            z3.Int(name + '.n')
        p.assume(cnt >= 0)
        cache = p.named.setdefault(key, {})
        outer = list(self._elem)

        def at(k):
            k = z3.simplify(k) if not isinstance(k, int) else z3.IntVal(k)
            v = cache.get(k.get_id())
            if v is None:
                p.keep.append(k)
                save, self._elem = self._elem, outer + [(name, k)]
                try:
                    v = elem(self, k, '%s[]' % name)
                finally:
                    self._elem = save
                cache[k.get_id()] = v
            return v
        sp = Splice(name, cnt, at, keyset=key)
        if kind is tuple:
            return (sp,)
        return rt.RT._reg(VList([sp]))

    def table(self, name, keys, vals, default=None):
        d = rt.RT._newdict()
        ar = z3.ArraySort(Obj, Obj)
        d._abs = self._fun(name, ar) if self._elem else z3.Const(name, ar)
        d._kwrap = self._strwrap
        return d

    def _strwrap(self, t):
        # keys of tables are names
        self.p.solver.add(sym.ISSTR(t), sym.S_(sym.UNS(t)) == t)
        return SymStr(sym.UNS(t))

    def pool(self, name, factory):
        return factory()

    def ghost(self, name, factory):
        key = ('ghost', name, self.p.side)
        if key not in self.p.named:
            self.p.named[key] = factory()
        return self.p.named[key]

    @property
    def side(self):
        return self.p.side

    def patch(self, owner, name, value):
        self.w.patch(self.p, owner, name, value)

    def assume_contract(self, what, f, g):
        """Calls of the external f behave as g does."""
        self.p.assumed[id(f)] = (f, g)
        self.p.ex.used.add(what)

    def firsts(self, items):
        """The first components of a sequence of pairs."""
        out = []
        for x in list.__iter__(items):
            if type(x) is Splice:
                sp = x
                x = Splice(sp.name, sp.n, lambda k, sp=sp: sp.at(k)[0],
                           keyset=('firsts', sp.keyset or id(sp)))
                self.p.keep.append(sp)
                out.append(x)
            else:
                out.append(x[0])
        return rt.RT._reg(VList(out))

    def lookup(self, items, name):
        """The value of a name of a sequence of pairs with distinct names."""
        p = self.p
        sp, = list.__iter__(items)
        nt = sym.strt(name)
        ix = z3.Function('ix!%s' % (sp.keyset,), z3.StringSort(),
                         z3.IntSort())(nt)
        k, v = sp.at(ix)
        p.assume(z3.And(ix >= 0, ix < sp.n, k._t == nt))
        return v

    def conf(self, **kw):
        for k, v in kw.items():
            self.p.conf[k.replace('__op', 'op:')] = v

    def outcomes(self, kind, rets, excs=None):
        self.p.conf[kind] = (list(rets), excs)

    def excs(self, *classes):
        self.p.conf['exc'] = list(classes)

    def bounded_only(self, why):
        raise self.p.unsupported('bounded: %s' % why)

    def wrap(self, obj, checker):
        return self.S.Proxy(obj, checker)

    def capture(self, f):
        try:
            return ('ret', f())
        except EngineExc:
            raise
        except BaseException as e:
            self.p.check_dead()
            return ('exc', e)

    def forget_events(self):
        self.p.trace = []
        self.p.tpos = 0

    def has_exc(self, e):
        if real(e, EngineExc):
            raise e
        return e

    @staticmethod
    def same_arg(p, args):
        return args[1][0] if type(args[1]) is tuple else args[1]

    def require(self, cond):
        if not rt.RT.truth(cond):
            raise Infeasible()

    slot = conc.CCtx.slot

    def type_defines(self, t, name):
        if type(name) is not SymStr:
            return conc.CCtx.type_defines(self, t, name)
        ns = set()
        for k in t.__mro__:
            if k.__name__ != 'AbstractPyProxyBase':
                ns |= set(k.__dict__)
        return self.p.switch(name._t, sorted(ns)) is not None

    def own_method(self, x, name):
        if type(name) is not SymStr:
            return conc.CCtx.own_method(self, x, name)
        n = self.p.switch(name._t, own_names(x))
        if n is not None:
            return conc.CCtx.own_method(self, x, n)
    odd_class = conc.CCtx.odd_class


class SPath(Path):

    def __init__(self, ex, prefix):
        Path.__init__(self, ex, prefix)
        self.conf = {}
        self.patches = []
        self.side = 'impl'
        self.sorts = []
        self.labels = {}
        self.twinpairs = []

    def phase_ns(self):
        return 'in' if self.phase in ('setup', 'setup2') else self.phase

    # a list comprehension over an unbounded sequence
    def comp_piece(self, hk, sp, site):
        """What the comprehension makes of the unbounded part sp."""
        if self.phase == 'spec':
            # its elements are proved to be those of the implementation
            # where the iteration ends
            r = self.compres.get(hk)
            if r is None:
                raise self.unsupported('comprehension only in the '
                                       'specification')
            return r
        rec = self.ex.backs.get(hk)
        if rec is None:
            raise self.unsupported('comprehension without elements')
        r = self.compres[hk] = self.comp_splice(sp, rec, site)
        return r

    def comp_splice(self, sp, rec, site):
        quiet, conds, elts = rec
        if quiet is None:
            # the elements depend on what happened: any list
            self.approximate('comprehension with effects')
            nm = self.fresh('comp')
            n = z3.Int(nm + '.n')
            self.assume(z3.And(n >= 0, n <= sp.n))
            if all(ap is not None for _, ap in elts):
                self.assume(n == sp.n)
            arr = z3.Const(nm, z3.ArraySort(z3.IntSort(), Obj))
            if not all(type(ap[0]) is SymObj or ap[0] is sym.ELEMENT
                       for _, ap in elts if ap):
                raise self.unsupported('comprehension with effects')
            return Splice(nm, n, lambda k: self.dec(z3.Select(arr, k)))
        key = ('comp', id(sp), tuple(f.get_id() for _, f in conds))
        nm = self.fresh('comp')
        pairs = []
        for (k, f), (k2, ap) in zip(conds, elts):
            if ap is not None:
                pairs.append((k, f, ap[0]))
        n = z3.Int(nm + '.n')
        src = z3.Function(nm + '.src', z3.IntSort(), z3.IntSort())
        dst = z3.Function(nm + '.dst', z3.IntSort(), z3.IntSort())
        i, j = z3.Int('ci'), z3.Int('cj')

        if all(ap is not None for _, ap in elts):
            # nothing is left out: the element at k is made from that at k
            def every(k):
                for kk, f, v in pairs[:-1]:
                    if self.branch(z3.substitute(f, (kk, k))):
                        return self.subst(v, kk, k, sp)
                return self.subst(pairs[-1][2], pairs[-1][0], k, sp)
            return Splice(nm, sp.n, every)

        def cond(jj):
            return z3.Or([z3.substitute(f, (k, jj)) for k, f, _ in pairs]) \
                if pairs else z3.BoolVal(False)
        self.assume(n >= 0)
        self.assume(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < n),
            z3.And(src(i) >= 0, src(i) < sp.n, cond(src(i)),
                   dst(src(i)) == i)), patterns=[src(i)]))
        self.assume(z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < sp.n, cond(j)),
            z3.And(dst(j) >= 0, dst(j) < n, src(dst(j)) == j)),
            patterns=[dst(j)]))
        self.assume(z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < sp.n, cond(j)), n > 0)))
        self.assume(z3.Implies(n > 0, z3.And(
            src(0) >= 0, src(0) < sp.n, cond(src(0)))))

        def at(k):
            if len(pairs) == 1:
                return self.subst(pairs[0][2], pairs[0][0], src(k), sp)
            for kk, f, v in pairs[:-1]:
                if self.branch(z3.substitute(f, (kk, src(k)))):
                    return self.subst(v, kk, src(k), sp)
            return self.subst(pairs[-1][2], pairs[-1][0], src(k), sp)
        return Splice(nm, n, at)

    def subst(self, v, k, t, sp):
        if v is sym.ELEMENT:
            return sp.at(t)
        if type(v) is SymStr:
            return SymStr(z3.substitute(v._t, (k, t)))
        if type(v) is SymObj:
            return self.dec(z3.substitute(st_of(v).t, (k, t)))
        if type(v) is tuple:
            return tuple(self.subst(e, k, t, sp) for e in v)
        if real(v, (bool, int, float, str, bytes, type(None), type,
                    types.FunctionType)):
            return v
        raise self.unsupported('element made in a comprehension')


# operations whose results CPython itself forces into a type
NATIVE = {'op:__len__': ['nat'], 'op:__hash__': ['int'], 'op:__int__': ['int'],
          'op:__index__': ['int'], 'op:__str__': ['text'],
          'op:__repr__': ['text'], 'op:__bool__': [True, False],
          'op:__contains__': [True, False]}


class Explorer:

    timeout_ms = 4000
    feas_ms = 300           # an undecided branch is followed

    def __init__(self, w, k, opts):
        self.w = w
        self.k = k
        self.name = k.key
        self.queries = 0
        self.obligation_checks = 0
        self.optcache = {}
        self.modsets = {}
        self.backs = {}
        self.skips = set()      # loops without a counterpart
        self.done = []
        self.now = {}
        self.restarts = 0
        self.refuted = []
        self.unknown = []
        self.paths = 0
        self.infeasible = 0
        self.events = set()
        self.used = set()       # externals taken as uninterpreted
        self.trusted = set()
        self.limit = opts.get('symtime', 60)
        self.maxpaths = opts.get('sympaths', 100000)
        self.cvc5 = 0
        self.solver_time = 0.0

    @property
    def proved(self):
        out = {}
        for _, names, _ns, _p in self.done:
            for (n, _by), i in names.items():
                out[n] = out.get(n, 0) + i
        return out

    @property
    def backends(self):
        out = {}
        for d in self.done:
            for (_n, by), i in d[1].items():
                out[by] = out.get(by, 0) + i
        return out

    # obligations -------------------------------------------------------
    def record(self, p, name, status, model):
        name = name.replace(self.name + ': ', '')
        if status == 'proved':
            k = name, model
            self.now[k] = self.now.get(k, 0) + 1
            return
        if p.short:
            # the specification is not known to change all that the
            # implementation changes in a loop: that may still be found
            raise p.kill(Pending('loop state differs'))
        rec = dict(obligation=name, decisions=[
            '%s=%r' % (d[2], d[0][d[1]]) for d in p.decisions][-40:],
            events=[repr_event(e) for e in p.trace[:20]],
            approx=list(p.approx), impl=self.text(self.impl_out))
        if model is not None and status == 'refuted':
            rec['model'] = model_text(model)
            rec['strings'] = model_strings(model)
        else:
            rec['why'] = str(model)
        (self.refuted if status == 'refuted' and not p.approx
         else self.unknown).append(rec)

    def second_opinion(self, p, f):
        self.cvc5 += 1
        p.solver.push()
        p.solver.add(z3.Not(f))
        text = '(set-logic ALL)\n' + p.solver.to_smt2()
        p.solver.pop()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2') as fh:
            fh.write(text)
            fh.flush()
            try:
                r = subprocess.run(
                    ['cvc5', '--strings-exp', '--tlimit=8000', fh.name],
                    capture_output=True, text=True, timeout=20)
                return r.stdout.strip().split('\n')[0]
            except Exception:
                return 'unknown'

    def describe(self, kind):
        return kind

    # environment --------------------------------------------------------
    def _conf(self, p, kind, args):
        c = p.conf
        rets, excs = None, None
        if kind in c:
            v = c[kind]
            rets, excs = v if real(v, tuple) else (v, None)
        h = None
        if kind.startswith('call:') and type(args[0]) is SymObj:
            m = st_of(args[0]).methods
            if real(m, dict):
                h = m.get(kind[5:])
                if h is None:
                    for n, x in m.items():
                        if real(x, dict) and x.get('alias') == kind[5:]:
                            h = x
        if h and rets is None:
            rets = h.get('results')
            r = h.get('result')
            if rets is None and r is not None:
                rets = {'truth': ['truthobj'], 'bool': [True, False],
                        'none': [None], 'str': ['text']}[r]
            if excs is None:
                excs = h.get('exc')
        if kind in NATIVE and (rets is None or rets != [] ):
            rets = NATIVE[kind]
        if rets is None:
            rets = conc.DEFAULT_RESULTS.get(kind, ['obj'])
        if excs is None:
            excs = c.get('exc')
        return rets, excs

    def outcomes(self, p, kind, args, result):
        if kind.startswith('op:') and type(args[0]) is SymObj:
            x = getattr(st_of(args[0]), 'extra', None)
            if x:
                op = kind[3:]
                if x['ops'] != 'all' and op not in x['ops'] or \
                        op in x['without']:
                    if op not in ('__eq__', '__ne__', '__hash__', '__bool__',
                                  '__str__', '__repr__'):
                        raise TypeError('no %s' % op)
        rets, excs = self._conf(p, kind, args)
        if result == 'bool':
            rets = [True, False]
        elif result == 'none':
            rets = [None]
        out = []
        for r in rets:
            if r in ('obj', 'truthobj', 'iter', 'text', 'int', 'nat') \
                    if type(r) is str \
                    else False:
                out.append(('new', r))
            elif type(r) is str and r == 'self':
                out.append(('const', args[0]))
            elif type(r) is str and r == 'arg1':
                out.append(('const', args[1]))
            elif real(r, types.FunctionType):
                out.append(('fun', r))
            else:
                out.append(('const', r))
        # the remaining kinds of results are subsumed by an arbitrary object
        if any(o[0] == 'new' and o[1] == 'obj' for o in out):
            out = [('new', 'obj')] + [
                o for o in out if o[0] == 'fun' or
                o[0] == 'const' and o[1] is NotImplemented]
        if excs is None:
            out += ['exc', EXC_ATTR]
        else:
            kinds = []
            for x in excs:
                if real(x, type):
                    kk = EXC_ATTR if issubclass(x, AttributeError) else 'exc'
                else:
                    kk = 'exc?'
                if kk not in kinds:
                    kinds.append(kk)
            if 'exc?' in kinds:
                kinds = ['exc', EXC_ATTR]
            out += kinds
        return out

    def event_result(self, p, kind, args, how='obj'):
        if how == 'text':
            return SymStr(z3.String(p.fresh('text')))
        if how in ('int', 'nat'):
            t = z3.Int(p.fresh('int'))
            if how == 'nat':
                p.assume(t >= 0)
            return SymInt(t)
        o = p.new('r', eqv=True)
        s = st_of(o)
        s.truth = 'event' if how == 'truthobj' else 'pure'
        s.eqv = False
        if kind.startswith('op:'):
            p.assume(s.t != p.const(NotImplemented))
        s.extra = dict(ops='all', without=(), hashev=False, classev=False,
                       env=True)
        p.by_term[s.t.get_id()] = o
        return o

    FREE = dict(ops='all', without=(), hashev=False, classev=False, env=True,
                free=True)

    def fixed_false(self):
        S = self.w.S
        import zope.proxy
        return (S.Proxy, zope.proxy.PyProxyBase, zope.proxy.ProxyBase,
                S.checker.CheckerPy, S.Checker, dict, list, tuple, str, int,
                float, type, types.ModuleType, BaseException, set, frozenset,
                bytes, type(None))

    def inst_hook(self, p, x, cls):
        """Objects of the environment are of none of the types the code
        under test defines or handles natively, unless declared so."""
        x = st_of(x).extra
        if x and x.get('free'):
            return None
        for c in self.fixed_false():
            try:
                if issubclass(cls, c):
                    return False
            except TypeError:
                pass
        return None

    def same_hook(self, p, a, b, d):
        w = self.w
        if real(a, w.S.proxy.ProxyPy):
            oa, ob = w.referents(a), w.referents(b)
            return p.conj([p.same(x, y, d) for x, y in zip(oa, ob)])
        if real(a, (w.S.checker.CheckerPy,)):
            return p.same_dict(a.__dict__, b.__dict__, d)
        if type(a) in (types.BuiltinMethodType, types.MethodWrapperType):
            if a.__name__ != b.__name__:
                return False
            return p.same(a.__self__, b.__self__, d)
        if type(a) is types.FunctionType:
            if a.__code__ is not b.__code__:
                return False
            return p.conj([p.same(
                [c.cell_contents for c in (a.__closure__ or ())],
                [c.cell_contents for c in (b.__closure__ or ())], d),
                p.same(a.__defaults__, b.__defaults__, d)])
        return None

    def getattr_(self, p, x, name):
        if type(x) is SymObj:
            if type(name) is SymStr:
                s = st_of(x)
                n = p.switch(name._t, list(s.methods) + list(s.fields) +
                             ['__class__'])
                if n is not None:
                    return SymObj.__getattribute__(x, n)
                return p.event('getattr', (x, name))
            return SymObj.__getattribute__(x, name)
        if type(name) is SymStr:
            if real(x, self.w.S.proxy.ProxyPy):
                try:
                    return type(x).__getattribute__(x, name)
                except AttributeError:
                    p.check_dead()
                    return type(x).__getattr__(x, name)
            raise p.unsupported('getattr with a symbolic name on %s'
                                % type(x).__name__)
        return getattr(x, name)

    def iter_object(self, p, x, site, lambdas):
        m = st_of(x).methods
        h = m.get('__iter__') if real(m, dict) else None
        if callable(h):
            return h()
        p.event('op:__iter__', (x,))
        raise p.unsupported('iteration over an arbitrary object')

    def external(self, p, f, slf, a, k):
        q = getattr(f, '__qualname__', repr(f))
        mod = getattr(f, '__module__', '') or ''
        if real(f, type):
            if issubclass(f, BaseException) or \
                    f.__module__.startswith(('zope.security', 'contracts',
                                             'vc.', 'zope.proxy', 'zope.location.',
                                             'env')):
                return f(*a, **k)
        if mod.startswith(('vc.', 'contracts')):
            return f(*a, **k)
        if self.dunders(f):
            return f(*a, **k)
        if type(f) is types.MethodType and type(f.__self__) in (SCtx,):
            return f(*a, **k)
        if type(slf) is SCtx:
            return f(*a, **k)
        inst = getattr(type(f), '__call__', None)
        if type(inst) is types.FunctionType and \
                inst.__code__.co_filename in rt.INSTRUMENTED:
            return f(*a, **k)
        h = EXTERNALS.get(q)
        if h is not None:
            if type(f) in (types.BuiltinMethodType, types.MethodWrapperType)\
                    and type(slf) in (types.ModuleType, type(None)):
                slf = None
            r = h(self, p, f, slf, a, k)
            if r is not rt.NOPE:
                return r
        return rt.NOPE

    def sorted_(self, p, x, k):
        """Some arrangement of the elements: the same one for the same."""
        if k.get('reverse'):
            raise p.unsupported('sorted')
        key = k.get('key')
        if key is not None:
            if not hasattr(key, '__reduce__') or \
                    type(key).__module__ != 'operator':
                raise p.unsupported('sorted')
            key = key.__reduce__()
        if type(x) is SymObj:
            x = self.iter_object(p, x, None, ())
        for y, r, k2 in p.sorts:
            if k2 != key:
                continue
            f = p.same(tuple(list.__iter__(y)), tuple(list.__iter__(x)))
            if f is True or f is not False and \
                    p.sat(z3.Not(f)) == z3.unsat:
                return rt.RT._reg(VList(list.__iter__(r)))
        es = list(list.__iter__(x))
        if len(es) != 1 or type(es[0]) is not Splice:
            raise p.unsupported('sorted')
        sp = es[0]
        nm = p.fresh('sorted')
        pi = z3.Function(nm, z3.IntSort(), z3.IntSort())
        inv = z3.Function(nm + '.inv', z3.IntSort(), z3.IntSort())
        i = z3.Int('si')
        p.assume(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < sp.n),
            z3.And(pi(i) >= 0, pi(i) < sp.n, inv(pi(i)) == i)),
            patterns=[pi(i)]))
        p.assume(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < sp.n),
            z3.And(inv(i) >= 0, inv(i) < sp.n, pi(inv(i)) == i)),
            patterns=[inv(i)]))
        r = VList([Splice(nm, sp.n, lambda k: sp.at(pi(k)), keyset=nm)])
        p.sorts.append((x, r, key))
        self.used.add('sorted: an arrangement of the elements, the same one '
                      'for the same elements')
        return rt.RT._reg(VList(list.__iter__(r)))

    def callee_contract(self, p, f):
        return None

    type_isa = {type: True}

    def dunders(self, x):
        """Do instrumented methods decide the built-in functions on x?"""
        return real(x, self.w.S.proxy.PyProxyBase)

    def type_of(self, p, x):
        return rt.m_type(x)

    def typeof_axioms(self, p, x, t):
        s = st_of(p.by_term[t.get_id()])
        s.extra = dict(ops=(), without=(), hashev=False, classev=False,
                       env=True, inst=x)
        n = sym.ident(x)
        if n:
            s.extra['input'] = 2000000 + n
            p.solver.add(sym.NUM(t) == 2000000 + n)
        # (the class of an environment object)
        s.fields.update(__module__='env', __name__='M_' + st_of(x).name)

    # running -------------------------------------------------------------
    def explore(self):
        t0 = time.time()
        stack = [[]]
        while stack:
            if time.time() - t0 > self.limit or self.restarts > 3000 or \
                    self.paths > self.maxpaths:
                raise Budget('budget exhausted after %d paths' % self.paths)
            prefix = stack.pop()
            self.now = {}
            p = SPath(self, prefix)
            pending = False
            try:
                self.run(p)
            except Pending:
                pending = True
            except Restart as r:
                # a loop modifies more than was known: redo what follows
                # its head
                pre = tuple(r.args[0])
                n = len(pre)
                stack = [x for x in stack if tuple(x[:n]) != pre]
                d = p.decisions
                for j in range(n - 1, len(prefix) - 1, -1):
                    for i in range(1, len(d[j][0])):
                        stack.append([x[1] for x in d[:j]] + [i])
                stack.append(list(pre))
                for k in [k for k in self.optcache
                          if k[:n] == pre and len(k) >= n]:
                    del self.optcache[k]
                for k in [k for k in self.backs if k[1][:n] == pre]:
                    del self.backs[k]
                self.done = [x for x in self.done if x[0][:n] != pre]
                self.paths = len(self.done)
                self.restarts += 1
                continue
            self.paths += 1
            self.done.append((tuple(d[1] for d in p.decisions), self.now,
                              tuple(len(d[0]) for d in p.decisions),
                              pending))
            if self.refuted or self.unknown:
                return
            d = p.decisions
            for j in range(len(d) - 1, len(prefix) - 1, -1):
                for i in range(1, len(d[j][0])):
                    stack.append([x[1] for x in d[:j]] + [i])

        self.complete()

    def complete(self):
        """Every alternative of every decision has been followed."""
        width, seen = {}, {}
        for d, _, ns, pending in self.done:
            if pending:
                raise Unsupported('loop state differs')
            for j in range(len(d)):
                pre = d[:j]
                if width.setdefault(pre, ns[j]) != ns[j]:
                    raise AssertionError('alternatives change')
                seen.setdefault(pre, set()).add(d[j])
        for pre, n in width.items():
            if len(seen[pre]) != n:
                raise AssertionError('alternatives are left at %r' % (pre,))

    def outcome(self, p, f, c, e):
        try:
            r = ('ret', f(c, e))
            p.check_dead()
            return r
        except EngineExc:
            raise
        except (MemoryError, RecursionError) as x:
            if os.environ.get('VC_TB'):
                traceback.print_exc(limit=-25)
            raise p.unsupported(type(x).__name__)
        except BaseException as x:
            p.check_dead()
            tb = x.__traceback__
            while tb is not None and tb.tb_next is not None:
                tb = tb.tb_next
            if real(x, z3.Z3Exception):
                raise EngineError(x) from x
            if tb is not None and isinstance(
                    x, (NameError, ImportError, AssertionError)) and \
                    os.path.dirname(tb.tb_frame.f_code.co_filename) == HERE:
                raise EngineError(x) from x
            return ('exc', x)

    def run(self, p):
        w, k = self.w, self.k
        sym.CUR = p
        p.init_axioms()
        c = SCtx(p, w, k)
        inst = k()
        try:
            self.reset(None)
            p.phase = 'setup'
            e = inst.setup(c)
            p.check_dead()
            walk = self.walk(e)
            p.phase = 'impl'
            cut = False
            try:
                out = self.outcome(p, inst.impl, c, e)
            except PathEnd:
                out, cut = ('cut', None), True
                p.dead = None
                p.loops = []
            self.impl_out = out
            if p.stutter:
                return
            p.phase = 'observe'
            obs = inst.observe(c, e) if k.observe and not cut else None
            p.check_dead()
            self.reset(p, keep=True)
            p.side = 'spec'
            for key in [x for x in p.cnt if x[0] == 'in']:
                del p.cnt[key]
            p.setup_pos = 0
            p.phase = 'setup2'
            c2 = SCtx(p, w, k)
            e2 = inst.setup(c2)
            p.check_dead()
            walk2 = self.walk(e2)
            for a, b in zip(walk, walk2):
                if a is not b and type(a) is type(b):
                    p.twins[id(a)] = b
                    p.twins[id(b)] = a
                    p.twinpairs.append((a, b))
                    p.keep.append((a, b))
            p.phase = 'spec'
            p.loops, p.whiles, p.comps = [], {}, {}
            try:
                out2 = self.outcome(p, inst.spec, c2, e2)
            except PathEnd:
                return
            if cut:
                if os.environ.get('VC_TB') and out2[0] == 'exc':
                    traceback.print_exception(out2[1])
                if p.tpos < len(p.trace):
                    p.unmatched(p.trace[p.tpos])
                p.oblige('the loop goes on as specified', False)
            if p.tpos < len(p.trace):
                if p.trace[p.tpos].out == 'mark':
                    p.unmatched(p.trace[p.tpos])
                p.oblige('no further step on the environment (%s)' %
                         p.trace[p.tpos].kind, False)
            self.cmp_out(p, out, out2)
            for n in vars(e2):
                if n[0] != '_':
                    p.oblige('final state of %s' % n,
                             p.same(getattr(e, n), getattr(e2, n)))
            for a, b in p.twinpairs:
                ca, cb = self.content(a), self.content(b)
                f = True if ca is None else p.same(ca, cb)
                p.oblige('final state of the inputs', f)
            p.phase = 'observe'
            obs2 = inst.observe(c2, e2) if k.observe else None
            if k.observe:
                p.oblige('observed final state', p.same(obs, obs2))
        except Infeasible:
            self.infeasible += 1
        except Mismatch:
            pass
        finally:
            p.phase = None
            sym.CUR = None
            for ev in p.trace:
                self.events.add(ev.kind)
            self.reset(p)

    def cmp_out(self, p, a, b):
        if b[0] == 'exc' and real(b[1], AnyException):
            want = b[1].args or (BaseException,)
            ok = a[0] == 'exc'
            if ok and real(a[1], SymExc):
                ok = want == (BaseException,) or any(
                    p.excmatch(a[1], x) for x in want)
            elif ok:
                ok = real(a[1], tuple(want))
            p.oblige('outcome: an exception', True if ok else False)
            return
        if a[0] != b[0]:
            self.last = (a, b)
            p.oblige('outcome: %s, must be: %s' % (
                self.text(a), self.text(b)), False)
        if a[0] == 'exc':
            x, y = a[1], b[1]
            if x is y:
                f = True
            elif real(x, SymExc) or real(y, SymExc):
                f = False
            elif type(x) is not type(y):
                f = False
            elif real(x, self.w.arg_excs):
                f = p.same(x.args, y.args)
            else:
                f = True
            p.oblige('outcome: %s' % ('exception' if f is not False else
                                      self.text(a) + ', must be: ' +
                                      self.text(b)), f)
            return
        p.oblige('outcome: result', p.same(a[1], b[1]))

    def text(self, o):
        try:
            return '%s %s' % ('returns' if o[0] == 'ret' else 'raises',
                              brief(o[1]))
        except BaseException:
            return o[0]

    # state ----------------------------------------------------------------
    def reset(self, p, keep=False):
        w = self.w
        cur, sym.CUR = sym.CUR, None
        try:
            if p is not None:
                for d, items in reversed(p.lifted):
                    if d is w.S.checker._checkers or \
                            d is w.S.checker.BasicTypes or id(d) in \
                            self.w.basedicts:
                        d._abs = None
            for d in (w.S.checker._checkers, w.S.checker.BasicTypes):
                if real(d, VDict) and d._abs is not None:
                    d._abs = None
            w.reset_globals(p)
        finally:
            sym.CUR = cur

    def walk(self, x, out=None, memo=None):
        if out is None:
            out, memo = [], set()
        if id(x) in memo or is_sym(x) or type(x) is Splice or \
                type(x).__dict__.get('_vc_skip'):
            return out
        memo.add(id(x))
        if real(x, (str, bytes, int, float, complex, bool,
                              type(None), type)) and \
                not real(x, self.w.S.Proxy):
            return out
        out.append(x)
        if real(x, self.w.S.proxy.ProxyPy):
            for y in self.w.referents(x):
                self.walk(y, out, memo)
        elif real(x, (tuple, list)):
            for y in (list.__iter__(x) if real(x, list) else x):
                self.walk(y, out, memo)
        elif type(x) in (types.FunctionType, types.ModuleType):
            pass
        else:
            if real(x, dict):
                for kk, y in dict.items(x):
                    self.walk(kk, out, memo)
                    self.walk(y, out, memo)
            d = plain_dict(x)
            if d is not None:
                for kk, y in d.items():
                    if not (type(x) is Env and kk[0] == '_') and \
                            not (real(x, VDict) and kk in (
                                '_abs', '_vwrap', '_kwrap', '_vname')):
                        self.walk(y, out, memo)
        return out

    def content(self, x):
        p = sym.CUR
        if type(x) is Env or type(x) in (types.FunctionType,
                                         types.ModuleType, tuple):
            return None
        if real(x, self.w.S.proxy.ProxyPy):
            return tuple(self.w.referents(x))
        if real(x, list):
            return tuple(list.__iter__(x))
        if real(x, VDict):
            d = VDict(dict.items(x))
            d._abs = x._abs
            return d
        if real(x, dict):
            return dict(x)
        if real(x, set):
            return set(x)
        d = plain_dict(x)
        return dict(d) if d is not None else None


def plain_dict(x):
    """The attributes of an ordinary object, or of a location proxy."""
    try:
        d = object.__getattribute__(x, '__dict__')
    except AttributeError:
        d = None
    if d is None and '_wrapped' in dir(type(x)):
        d = {}
        for n in ('_wrapped', '__parent__', '__name__'):
            try:
                d[n] = object.__getattribute__(x, n)
            except AttributeError:
                pass
    return d if type(d) is dict else None


def brief(x, depth=0):
    if type(x) is SymObj:
        return '<%s>' % st_of(x).name
    if type(x) is SymStr:
        return '<str %s>' % str(x._t)[:40]
    if type(x) is SymInt:
        return '<int>'
    if type(x) is Splice:
        return '%s...' % x.name
    if type(x) is SymMethod:
        return '%s.%s' % (brief(x.obj), x.name)
    if depth < 4:
        if type(x) is tuple:
            return '(%s)' % ', '.join(brief(e, depth + 1) for e in x)
        if real(x, list):
            return '[%s]' % ', '.join(brief(e, depth + 1)
                                      for e in list.__iter__(x))
        if real(x, dict):
            return '{%s%s}' % ('abstract ' if getattr(
                x, '_abs', None) is not None else '', ', '.join(
                '%s: %s' % (brief(a, depth + 1), brief(b, depth + 1))
                for a, b in list(dict.items(x))[:6]))
        if real(x, SymExc):
            return repr(x)
        if real(x, BaseException):
            return '%s%s' % (type(x).__name__, brief(x.args, depth + 1))
    try:
        if real(x, (str, bytes, int, float, type(None))):
            return ascii(x)[:80]
        if real(x, (type, types.FunctionType)):
            return x.__qualname__
    except BaseException:
        pass
    return '<%s>' % type(x).__name__


def repr_event(e):
    try:
        return '%s%s -> %s %s' % (e.kind, brief(e.args), e.out, brief(e.val))
    except BaseException:
        return e.kind


def model_text(m):
    out = []
    for d in list(m.decls())[:30]:
        try:
            out.append('%s = %s' % (d.name(), str(m[d]).replace(
                '\n', ' ')[:100]))
        except Exception:
            pass
    return out


def model_strings(m):
    out = []
    for d in m.decls():
        try:
            v = m[d]
            if z3.is_string_value(v):
                out.append(v.as_string())
        except Exception:
            pass
    return out


# ---- models of external functions ------------------------------------------
EXTERNALS = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXTERNALS[n] = f
        return f
    return deco


@ext('object.__getattribute__')
def ext_oga(ex, p, f, slf, a, k):
    x, name = (slf, a[0]) if type(f) is types.MethodWrapperType else a
    if type(name) is SymStr and not is_sym(x):
        # one case per name the class defines, and one for all the others
        n = p.switch(name._t, own_names(x))
        if n is not None:
            return object.__getattribute__(x, n)
        raise AttributeError(name)
    if type(name) is str and not is_sym(x):
        return object.__getattribute__(x, name)
    return rt.NOPE


def own_names(x):
    r = set()
    for c in type(x).__mro__:
        r |= set(c.__dict__)
    d = getattr_static_dict(x)
    return sorted(r | set(d))


def getattr_static_dict(x):
    try:
        return object.__getattribute__(x, '__dict__')
    except AttributeError:
        return {}


def abstract_container(x):
    """Is the content of x (not only its values) symbolic?"""
    if is_sym(x):
        return True
    if real(x, VDict):
        return x._abs is not None
    if real(x, (list, tuple)):
        return any(type(e) is Splice for e in (
            list.__iter__(x) if real(x, list) else tuple.__iter__(x)))
    return type(x) is Splice


def native(keyed, *names):
    """Container operations that handle the values blindly: only the content
    of the container, and the key if there is one, has to be concrete."""
    def h(ex, p, f, slf, a, k):
        if type(f) in (types.WrapperDescriptorType,
                       types.MethodDescriptorType):
            if not a:
                return rt.NOPE
            slf, rest = a[0], a[1:]
        else:
            rest = a
        if slf is not None and abstract_container(slf):
            return rt.NOPE
        if keyed:
            if rest and (sym.symkey(rest[0]) or type(rest[0]) is tuple and
                         sym.has_abs(rest[0])):
                return rt.NOPE
        elif any(abstract_container(x) for x in rest):
            if not (real(slf, list) and all(
                    not abstract_container(x) or is_sym(x) for x in rest)):
                return rt.NOPE
        if slf is not None:
            p.mutating(slf)
        return f(*a, **k)
    for n in names:
        EXTERNALS[n] = h
    return h


NATIVE_H = native(True, 'dict.get', 'dict.pop', 'dict.setdefault',
                  'dict.__setitem__', 'dict.__delitem__', 'dict.__getitem__',
                  'dict.__contains__')
native(False, 'dict.items', 'dict.keys', 'dict.values', 'dict.copy',
       'dict.update', 'dict.clear', 'list.append', 'list.extend',
       'list.insert', 'list.pop', 'list.copy', 'list.reverse', 'list.clear',
       'zip', 'enumerate', 'reversed', 'map', 'filter')


@ext('enumerate')
def ext_enumerate(ex, p, f, slf, a, k):
    """The positions are terms: the lengths of what is before."""
    xs = a[0]
    if type(xs) not in (VList, list, tuple):
        return NATIVE_H(ex, p, f, slf, a, k)
    out, at = [], k.get('start', a[1] if len(a) > 1 else 0)
    if type(at) is not int:
        return rt.NOPE
    for e in (list.__iter__(xs) if real(xs, list) else xs):
        if type(e) is not Splice:
            out.append((at, e))
            at = at + 1
        else:
            def pair(i, sp=e, at=at):
                return sym.SymInt(i) + at, sp.at(i)
            out.append(Splice(e.name + '#', e.n, pair, keyset=None))
            at = sym.SymInt(e.n) + at
    return rt.RT._reg(VList(out))


@ext('mappingproxy.get', 'dict.get')
def ext_get(ex, p, f, slf, a, k):
    if not is_sym(slf) and type(a[0]) is SymStr and not (
            real(slf, VDict)):
        n = p.switch(a[0]._t, sorted(n for n in slf if type(n) is str))
        if n is not None:
            return slf[n]
        return a[1] if len(a) > 1 else None
    if real(slf, dict):
        return NATIVE_H(ex, p, f, slf, a, k)
    return rt.NOPE


@ext('SpecificationBase.providedBy')
def ext_provided(ex, p, f, slf, a, k):
    x = a[0]
    if type(x) is SymObj:
        from zope.interface.interface import InterfaceClass
        from zope.interface.interfaces import IInterface
        if slf is IInterface and any(
                v and issubclass(c, InterfaceClass)
                for c, v in st_of(x).isa.items()):
            return True
        if not (st_of(x).extra or {}).get('env'):
            return rt.NOPE
        ex.used.add('providedBy: a fixed relation between objects and '
                    'interfaces')
        return p.branch(z3.Function('provides_%d' % id(slf), Obj,
                                    z3.BoolSort())(st_of(x).t))
    if type(x) in (VList, list, tuple, VDict, dict):
        return f([] if real(x, list) else () if type(x) is tuple else {})
    return rt.NOPE


@ext('object.__setattr__')
def ext_osa(ex, p, f, slf, a, k):
    x, name, v = a if slf is None else (slf,) + a
    if is_sym(x) or type(name) is not str:
        return rt.NOPE
    if name != '_wrapped':
        p.mutating(x)
    return object.__setattr__(x, name, v)


@ext('object.__repr__')
def ext_orepr(ex, p, f, slf, a, k):
    return p.token('or', a[0]) if is_sym(a[0]) else rt.NOPE


@ext('str.format')
def ext_format(ex, p, f, slf, a, k):
    return slf.format(*a, **k)


def main(w, out, keys, opts):
    rt.INSTRUMENTED.clear()
    orig = transform.instrument

    def instrument(source, modname, filename):
        rt.INSTRUMENTED.add(filename)
        return orig(source, modname, filename)
    transform.instrument = instrument
    transform.install(rt.RT)
    w.load()
    w.basedicts = set()
    reg = importlib.import_module('vc.worker').load_contracts()
    results = []
    for key in keys:
        k = reg[key]
        r = dict(key=key, config=w.config, functions=list(k.functions))
        t0 = time.time()
        ex = Explorer(w, k, opts)
        try:
            if not k.sym:
                raise Unsupported('not attempted')
            ex.explore()
            if ex.refuted:
                r['status'] = 'refuted'
            elif ex.unknown:
                r['status'] = 'unknown'
            elif not sum(ex.proved.values()) or \
                    ex.paths <= ex.infeasible:
                r['status'] = 'vacuous'
            else:
                r['status'] = 'proved'
        except (Unsupported, Budget) as e:
            if os.environ.get('VC_TB'):
                traceback.print_exc(limit=-25)
            r['status'] = 'undecided'
            r['why'] = str(e)
        except BaseException as e:
            r['status'] = 'error'
            r['why'] = ''.join(traceback.format_exception(e))[-3000:]
        sym.CUR = None
        ex_proved = ex.proved
        r.update(obligations=sum(ex_proved.values()) + len(ex.refuted) +
                 len(ex.unknown), discharged=sum(ex_proved.values()),
                 names=ex_proved, refuted=ex.refuted, unknown=ex.unknown,
                 paths=ex.paths, infeasible=ex.infeasible,
                 queries=ex.queries, checks=ex.obligation_checks,
                 solver=ex.solver_time, backends=ex.backends,
                 cvc5=ex.cvc5, events=sorted(ex.events),
                 used=sorted(ex.used), wall=time.time() - t0)
        results.append(r)
        with open(out + '.tmp', 'w') as f:
            json.dump(results, f)
        os.replace(out + '.tmp', out)
