"""Factories (C12), the registry (C13), default protections (C14)."""
import types

from zope.interface.interface import InterfaceClass

from vc.dsl import contract, Env, AnyException

CK = 'zope.security.checker:'


def permissions(c):
    return [c.S.CheckerPublic, c.obj('perm', ops=(), eqev=True),
            c.obj('perm2', ops=(), eqev=True)]


def declare(c, gets, name, permission):
    """One more entry of the table that the checker is built with."""
    if name in gets and gets[name] is not permission:
        raise c.S.DuplicationError(name)
    gets[name] = permission


def names_table(c, keywords, names, permission):
    """Keywords are declared first."""
    gets = {}
    gets.update(keywords)
    for name in names:
        declare(c, gets, name, permission)
    return gets


def built(c, gets):
    """The checker with this table."""
    return c.S.Checker(gets)


def observed(c, k):
    return type(k) is c.S.Checker, k


def names_of(c, name):
    """A sequence of names of any kind."""
    kind = c.choice('kind of ' + name, [list, tuple])
    return c.seq(name, lambda c, i, n: c.str(n, ['spam', 'eggs'], False),
                 n=3, kind=kind)


@contract('C12', CK + 'NamesChecker', watch=True)
class NamesChecker:
    def setup(self, c):
        ps = permissions(c)
        e = Env(names=names_of(c, 'names'), perm=c.choice('permission', ps))
        e.args = (e.names, e.perm)
        if e.perm is c.S.CheckerPublic and c.flag('default permission'):
            e.args = (e.names,) if e.names else ()
        e.kw = c.table('keywords', ['spam', 'other'], [
            lambda v=v: v for v in ps[:2] + [None]])
        return e

    def impl(self, c, e):
        return observed(c, c.S.checker.NamesChecker(*e.args, **e.kw))

    def spec(self, c, e):
        return True, built(c, names_table(c, e.kw, e.names, e.perm))


def interfaces(c):
    I = c.S.I
    if c.engine == 'sym':
        # any interface: what names(all=True) gives is all that counts
        names = names_of(c, 'interface names')
        return [c.obj('interface', methods={'names': lambda all: (
            names if all is True else c.seq(
                'own names', lambda c, i, n: c.str(n)))},
            fields={'__vc_names__': names},
            isa=[InterfaceClass])]
    return [I.IEmpty, I.IBase, I.IDerived]


def all_names(c, interface):
    """The names an interface defines, inherited ones included."""
    if c.engine == 'sym':
        return interface.__vc_names__
    return c.S.I.NAMES[interface]


@contract('C12', CK + 'InterfaceChecker', watch=True)
class InterfaceChecker:
    def setup(self, c):
        ps = permissions(c)
        e = Env(iface=c.choice('interface', interfaces(c)),
                perm=c.choice('permission', ps))
        e.args = (e.iface, e.perm)
        if e.perm is c.S.CheckerPublic and c.flag('default permission'):
            e.args = (e.iface,)
        e.kw = c.table('keywords', ['base', 'other'], [
            lambda v=v: v for v in ps[:2] + [None]])
        return e

    def impl(self, c, e):
        return observed(c, c.S.checker.InterfaceChecker(*e.args, **e.kw))

    def spec(self, c, e):
        return True, built(c, names_table(c, e.kw, all_names(c, e.iface),
                                          e.perm))


class Items:
    """Not a dictionary, but has items."""

    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return list(self.pairs)


@contract('C12', CK + 'MultiChecker', watch=True, symtime=240)
class MultiChecker:
    def setup(self, c):
        ps = permissions(c)

        def spec(c, i, n):
            kind = c.choice('kind of ' + n, ['names', 'interface', 'dict',
                                             'items'])
            if kind == 'names':
                return (names_of(c, n), c.choice('permission', ps))
            if kind == 'interface':
                return (c.choice('interface', interfaces(c)),
                        c.choice('permission', ps))
            d = c.table(n, ['spam', 'base'], [
                lambda v=v: v for v in ps[:2] + [None]])
            return d if kind == 'dict' else Items(d.items())
        e = Env(specs=c.seq('specs', spec, n=3, kind=c.choice(
            'specs are', [list, tuple])))
        return e

    def impl(self, c, e):
        return observed(c, c.S.checker.MultiChecker(e.specs))

    def spec(self, c, e):
        gets = {}
        for s in e.specs:
            if isinstance(s, tuple):
                names, permission = s
                if not isinstance(names, (list, tuple)):
                    names = all_names(c, names)
                for name in names:
                    declare(c, gets, name, permission)
            else:
                for name, permission in s.items():
                    declare(c, gets, name, permission)
        return True, built(c, gets)


# --- the registry (C13) --------------------------------------------------------
class Registered:
    """The whole registry and the table of basic types."""

    def observe(self, c, e):
        return (dict(c.S.checker._checkers),
                dict(dict.items(c.S.checker.BasicTypes)))


def odd_things(c):
    return [None, 12345, 'spam', (), c.obj('object', ops=())]


def a_type(c, odd=False):
    kind = c.choice('type', ['class', 'module', 'metaclass instance',
                             'built-in'] + (['odd'] if odd else []))
    if kind == 'class':
        return c.type('T')
    if kind == 'module':
        return c.S.I.module
    if kind == 'metaclass instance':
        return c.S.I.Meta_instance
    if kind == 'built-in':
        return c.choice('built-in', [int, dict, types.FunctionType])
    return c.choice('odd', odd_things(c))


def some_checker(c, name='checker'):
    return c.choice(name, [
        lambda: c.S.Checker({}), lambda: c.S.NoProxy,
        lambda: c.obj('factory'), lambda: None])()


@contract('C13', CK + 'defineChecker', watch=True)
class defineChecker(Registered):
    def setup(self, c):
        e = Env(type=a_type(c, True), checker=some_checker(c))
        if c.flag('registered') and isinstance(e.type, type):
            c.S.checker._checkers[e.type] = some_checker(c, 'old checker')
        return e

    def impl(self, c, e):
        return c.S.checker.defineChecker(e.type, e.checker)

    def spec(self, c, e):
        if not isinstance(e.type, (type, types.ModuleType)):
            raise TypeError()
        if e.type in c.S.checker._checkers:
            raise c.S.DuplicationError(e.type)
        c.S.checker._checkers[e.type] = e.checker


@contract('C13', CK + 'undefineChecker', watch=True)
class undefineChecker(Registered):
    def setup(self, c):
        e = Env(type=a_type(c))
        if c.flag('registered') and isinstance(e.type, type):
            c.S.checker._checkers[e.type] = some_checker(c)
        return e

    def impl(self, c, e):
        return c.S.checker.undefineChecker(e.type)

    def spec(self, c, e):
        if e.type not in c.S.checker._checkers:
            raise AnyException()
        del c.S.checker._checkers[e.type]


def basic_state(c, e):
    """Any table of basic types, in step with the registry."""
    for t in e.types:
        k = c.choice('state of %s' % t.__name__, ['absent', 'basic',
                                                 'registered'])
        if k == 'basic':
            c.S.checker.BasicTypes[t] = some_checker(c)
        elif k == 'registered':
            c.S.checker._checkers[t] = some_checker(c)


@contract('C13', CK + '_BasicTypes.__setitem__',
          CK + '_BasicTypes.__delitem__', CK + '_BasicTypes.update',
          CK + '_BasicTypes.clear', watch=True,
          variants=['set', 'delete', 'update', 'clear'])
class basic_types(Registered):
    def setup(self, c):
        e = Env(types=[c.type('T'), c.type('U')])
        basic_state(c, e)
        e.type = c.choice('which', e.types)
        e.value = some_checker(c, 'new')
        e.other = some_checker(c, 'other')
        if c.variant == 'update':
            e.n = c.choice('entries', [0, 1, 2])
            e.mapping = dict(list(zip(e.types, [e.value, e.other]))[:e.n])
        return e

    def impl(self, c, e):
        b = c.S.checker.BasicTypes
        if c.variant == 'set':
            b[e.type] = e.value
        elif c.variant == 'delete':
            del b[e.type]
        elif c.variant == 'update':
            b.update(e.mapping)
        else:
            b.clear()

    def spec(self, c, e):
        b = c.S.checker.BasicTypes
        reg = c.S.checker._checkers
        if c.variant == 'set':
            dict.__setitem__(b, e.type, e.value)
            reg[e.type] = e.value
        elif c.variant == 'delete':
            if e.type not in dict.keys(b):
                raise KeyError()
            dict.__delitem__(b, e.type)
            del reg[e.type]
        elif c.variant == 'update':
            for t in e.mapping:
                dict.__setitem__(b, t, e.mapping[t])
                reg[t] = e.mapping[t]
        else:
            raise AnyException()


@contract('C13', CK + '_clear', watch=True)
class clear(Registered):
    def setup(self, c):
        e = Env(types=[c.type('T'), c.type('U'), dict, int])
        for t in e.types:
            k = c.choice('state of %s' % t.__name__, [
                'as is', 'basic', 'registered', 'gone'])
            if k == 'basic':
                c.S.checker.BasicTypes[t] = some_checker(c)
            elif k == 'registered':
                c.S.checker._checkers[t] = some_checker(c)
            elif k == 'gone':
                c.S.checker._checkers.pop(t, None)
        return e

    def impl(self, c, e):
        return c.S.checker._clear()

    def spec(self, c, e):
        reg = c.S.checker._checkers
        for t in list(reg):
            del reg[t]
        for t, k in c.w.defaults.items():
            reg[t] = k
        for t, k in dict.items(c.S.checker.BasicTypes):
            reg[t] = k
        return None


# --- defaults (C14) -------------------------------------------------------------
ALWAYS = ['__lt__', '__le__', '__eq__', '__gt__', '__ge__', '__ne__',
          '__hash__', '__bool__', '__class__', '__providedBy__',
          '__implements__', '__repr__', '__conform__', '__name__',
          '__parent__']

# names of operations that change no built-in value
READING = set('''
__getitem__ __len__ __iter__ __contains__ __str__ __repr__ __format__
__reversed__ __length_hint__ __sizeof__ __doc__ __name__ __qualname__
__module__ __bases__ __mro__ __base__ __implemented__ __providedBy__
__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __and__ __rand__ __or__
__ror__ __xor__ __rxor__ __mod__ __rmod__ __divmod__ __rdivmod__ __pow__
__rpow__ __truediv__ __rtruediv__ __floordiv__ __rfloordiv__ __neg__ __pos__
__abs__ __invert__ __float__ __int__ __bool__ __hash__ __cmp__ __round__
__trunc__ __floor__ __ceil__ __complex__ __index__
__eq__ __ne__ __lt__ __le__ __gt__ __ge__
get has_key copy keys values items iterkeys iteritems itervalues index count
difference intersection issubset issuperset symmetric_difference union
isdisjoint next __next__
adjusted as_tuple compare max min normalize quantize remainder_near
same_quantum sqrt to_eng_string to_integral
'''.split())
CALLING = {'__call__', '__str__', '__name__', '__repr__'}
CLASSES = {'__str__', '__name__', '__module__', '__bases__', '__mro__',
           '__implemented__', '__qualname__', '__base__'}


@contract('C14', CK + '_available_by_default', history=False, watch=True)
class always_available:
    def setup(self, c):
        return Env()

    def impl(self, c, e):
        return list(c.S.checker._available_by_default)

    def spec(self, c, e):
        return c.w.conc.Unordered(ALWAYS)


def _kinds(c):
    return c.w.defaults_by_kind()


@contract('C14', CK + '*', history=False, watch=True,
          variants=['container', 'callable', 'class', 'iterator', 'module',
                    'declaration', 'number', 'rock'])
class defaults:
    """What each built-in value lets untrusted code do."""

    def setup(self, c):
        vs = c.w.live_values(c.variant)
        return Env(i=c.choice('value', list(range(len(vs)))))

    def impl(self, c, e):
        v = c.w.live_values(c.variant)[e.i]
        k = c.S.checker.selectChecker(v)
        if k is None:
            return 'unwrapped'
        p = c.S.proxy.ProxyFactory(v)
        if type(p) is not c.S.Proxy or c.w.referents(p)[0] is not v:
            return 'not protected'
        bad = []
        ok = {'container': READING, 'callable': CALLING, 'class': CLASSES,
              'iterator': READING, 'module': {'__name__'},
              'declaration': c.w.declaration_names() | READING | CALLING,
              'number': READING}.get(c.variant, set())
        c.S.thread_local.__dict__.clear()
        writes = set(dir(type(v))) | set(getattr(v, '__dict__', ())) | {
            'spam', '__class__', '__dict__', '__doc__'}
        for n in sorted(writes | set(k.get_permissions) | READING | CALLING
                        | CLASSES | set(ALWAYS) | {
                'append', 'extend', 'insert', 'pop', 'remove', 'clear',
                'update', 'setdefault', 'popitem', 'sort', 'reverse', 'add',
                'discard', '__setitem__', '__delitem__', '__iadd__',
                '__imul__', '__ior__', '__iand__', '__isub__', '__ixor__',
                '__dict__', '__globals__', '__code__', '__closure__',
                '__self__', '__func__', '__subclasses__', '__init__',
                '__setattr__', '__getattribute__', '__reduce__',
                '__reduce_ex__', 'send', 'throw', 'close', 'gi_frame',
                'changed', '__setstate__', '__weakref__'}):
            for how, what in (('check', 'do'), ('check_getattr', 'read'),
                              ('check_setattr', 'write')):
                try:
                    getattr(k, how)(v, n)
                except Exception:
                    continue
                if what == 'write' or n not in ok and n not in ALWAYS:
                    if n == '__iter__' and not hasattr(v, n):
                        continue
                    bad.append((what, n))
        return bad

    def spec(self, c, e):
        return 'unwrapped' if c.variant == 'rock' else []


@contract('C14', CK + '_default_checkers', CK + 'BasicTypes', history=False,
          watch=True)
class rocks:
    """Only known immutable types are handed out unwrapped."""

    def setup(self, c):
        return Env()

    def impl(self, c, e):
        S = c.S.checker
        got = {t for t, k in S._checkers.items() if k is S.NoProxy}
        return sorted('%s.%s' % (t.__module__, t.__name__)
                      for t in got - c.w.rock_types()) + sorted(
            'not callable or a checker: %r' % (t,)
            for t, k in S._checkers.items()
            if not isinstance(k, S.Checker) and k is not S.NoProxy
            and not callable(k))

    def spec(self, c, e):
        return []


@contract('C14', CK + 'CheckerPublic', history=False, watch=True)
class public_marker:
    """The public marker keeps its identity and gives nothing away."""

    def setup(self, c):
        return Env()

    def impl(self, c, e):
        P = c.S.CheckerPublic
        return (type(P) is c.S.Proxy, c.S.proxy.ProxyFactory(P) is P,
                c.S.Checker({}).proxy(P) is P,
                sorted(c.S.proxy.getChecker(P).get_permissions),
                c.S.proxy.getChecker(P).set_permissions)

    def spec(self, c, e):
        return True, True, True, ['__module__', '__reduce__'], {}
