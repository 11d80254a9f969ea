"""Adapter factories (C20) and decorators' checkers (C21)."""
from zope.interface import implementer
from zope.location import ILocation, LocationProxy

from vc.dsl import contract, Env, AnyException
from contracts import c07_protect as c07

AD = 'zope.security.adapter:'
DE = 'zope.security.decorator:'


# --- adapters ------------------------------------------------------------------
class Plain:
    """Not locatable (although it has a parent)."""
    __parent__ = None

    def __repr__(self):
        return 'plain'


@implementer(ILocation)
class Located:
    __name__ = None

    def __init__(self, parent):
        self.__parent__ = parent

    def __repr__(self):
        return 'located'


class Empty(Located):
    """Locatable and false."""

    def __len__(self):
        return 0


class Equal:
    """False, and equal to everything (even None)."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1

    def __bool__(self):
        return False


class EqualLocated(Located, Equal):
    __hash__ = Equal.__hash__


@implementer(ILocation)
class Fixed:
    """Locatable, but its parent cannot be set."""
    __name__ = None

    def __init__(self, parent):
        self.__dict__['__parent__'] = parent

    def __setattr__(self, name, value):
        raise NotImplementedError(name)


def an_adapter(c):
    cls = c.choice('adapter', [Plain, Located, Empty, EqualLocated, Fixed,
                               'number'])
    if cls == 'number':
        return 12345
    if cls is Plain:
        return Plain()
    return cls(c.choice('parent', [None, 'other parent', 0, Equal()]))


def argument(c, i, n):
    kind = c.choice(n, ['object', 'proxy', 'subclass', 'equal', 'number'])
    if kind == 'number':
        return 12345
    if kind == 'equal':
        return Equal()
    o = c.obj('object ' + n)
    if kind == 'object':
        return o
    cls = c.S.Proxy if kind == 'proxy' else c.S.SubProxy
    return cls(o, c.obj('checker ' + n, ops=()))


def bare(c, x):
    return c.w.referents(x)[0] if isinstance(x, c.S.Proxy) else x


def isinstance(x, cls):
    return issubclass(type(x), cls)


def shape(c, r):
    """How a result is wrapped, from the outside in."""
    out = []
    if isinstance(r, c.S.Proxy):
        out.append('protected')
        r, k = c.w.referents(r)
    if isinstance(r, LocationProxy):
        from zope.proxy import getProxiedObject
        out += ['located', r.__parent__]
        r = getProxiedObject(r)
    return out, r


VARIANTS = ['TrustedAdapterFactory', 'LocatingTrustedAdapterFactory',
            'LocatingUntrustedAdapterFactory']


@contract('C20', AD + 'LocatingTrustedAdapterFactory.__call__',
          AD + 'LocatingTrustedAdapterFactory._customizeProtected',
          AD + 'LocatingTrustedAdapterFactory._customizeUnprotected',
          AD + 'TrustedAdapterFactory._customizeProtected',
          AD + 'LocatingUntrustedAdapterFactory.__call__',
          AD + 'assertLocation', variants=VARIANTS, refs=False)
class adapter_factory:
    def setup(self, c):
        e = Env(adapter=an_adapter(c))
        if type(e.adapter) is Located and c.flag('adapts itself'):
            x = e.adapter
            if c.flag('protected'):
                x = c.S.Proxy(x, c.obj('checker first', ops=()))
        else:
            x = argument(c, 0, 'first')
        e.args = (x,) + c.seq('others', argument)
        e.real = c.obj('real factory', fields={
            '__name__': 'real', '__module__': 'env'})
        a = [e.adapter, None]
        c.outcomes('call', [lambda p, x: a[0 if p.side == 'impl' else 0]])
        if type(e.adapter) in (Plain, Located) and c.flag('registered'):
            c.S.checker._checkers[type(e.adapter)] = c.S.NoProxy \
                if c.flag('unprotected type') else c.S.Checker({})
        e._factory = getattr(c.S.adapter, c.variant)(e.real)
        return e

    def impl(self, c, e):
        r = e._factory(*e.args)
        s, inner = shape(c, r)
        return s, inner is e.adapter

    def spec(self, c, e):
        args = e.args
        protect = locate = False
        if 'Untrusted' in c.variant:
            locate = True
        elif any(isinstance(a, c.S.Proxy) for a in args):
            args = tuple(bare(c, a) for a in args)
            protect = True
            locate = 'Locating' in c.variant
        e.real(*args)
        a, out = e.adapter, []
        nested = False
        if isinstance(a, (Located, Fixed)):
            if a.__parent__ is None:
                a.__parent__ = args[0]
        elif locate:
            out = ['located', args[0]]
            nested = True
        if protect and (nested or c07.select(c, a) is not None):
            # (values that need no protection are never wrapped)
            out.insert(0, 'protected')
        return out, True


@contract('C20', AD + 'LocatingTrustedAdapterFactory.__init__',
          AD + 'LocatingUntrustedAdapterFactory.__init__', variants=VARIANTS)
class adapter_factory_init:
    """A factory introduces itself as the real one."""

    def setup(self, c):
        return Env(real=c.obj('real factory', fields={
            '__name__': 'real', '__module__': 'env'}))

    def impl(self, c, e):
        f = getattr(c.S.adapter, c.variant)(e.real)
        return f.__name__, f.__module__, f.factory

    def spec(self, c, e):
        return 'real', 'env', e.real


# --- decorators ------------------------------------------------------------------
def decorators(c):
    d = c.S.decorator
    out = c.S.__dict__.get('_decorators')
    if out is None:
        out = c.S._decorators = [
            type('Decorator', (d.DecoratorBase,), {'__module__': 'env'}),
            type('Checked', (d.SecurityCheckerDecoratorBase,),
                 {'__module__': 'env'}),
            LocationProxy]
    return out


def any_checker(c, name):
    return c.obj(name, methods={
        'check': dict(results=[None]),
        'check_getattr': dict(results=[None], alias='check'),
        'check_setattr': dict(results=[None])}, ops=())


class Declared:
    """Declares its own checker."""

    def __init__(self, checker):
        self.__Security_checker__ = checker


def describe(c, e, k):
    """A checker, or what a combined checker decides."""
    if type(k) is not c.S.checker.CombinedChecker:
        return k
    r = []
    for name in ('granted', 'spam'):
        r.append(c.capture(lambda: k.check(e.obj, name)))
        r.append(c.capture(lambda: k.check_setattr(e.obj, name)))
    return tuple(r)


def decide(c, e, first, second):
    r = []
    for name in ('granted', 'spam'):
        for which, ask in ((0, 'check'), (1, 'check_setattr')):
            t = tables_of(c, first)[which]
            if t.get(name) is c.S.CheckerPublic:
                r.append(('ret', None))
            elif ask == 'check' and second is not c.S.checker._defaultChecker:
                r.append(c.capture(lambda: second.check(e.obj, name)))
            elif second is not c.S.checker._defaultChecker:
                r.append(c.capture(lambda: second.check_setattr(e.obj,
                                                                name)))
            else:
                r.append(('exc', c.S.ForbiddenAttribute(name, e.obj)))
    return tuple(r)


def tables_of(c, k):
    return k.get_permissions, k.set_permissions


@contract('C21', DE + 'DecoratedSecurityCheckerDescriptor.__get__',
          variants=['Decorator', 'Checked', 'LocationProxy'], refs=False,
          history=False)
class decorated:
    def setup(self, c):
        cls = {k.__name__: k for k in decorators(c)}[c.variant]
        e = Env(cls=cls, obj=c.obj('object', ops=()))
        reg = c.S.checker._checkers
        e.nested = c.choice('nested', [False, True])
        # (telling that a decorated proxy is no exception, or no proxy, asks
        # its checker for its class, which is always available)
        inner = any_checker(c, 'inner checker') if not e.nested and \
            not c.is_c else \
            c.S.Checker({'spam': c.S.CheckerPublic},
                        {'granted': c.S.CheckerPublic})
        kind = c.choice('decorated', ['plain', 'declared', 'proxy',
                                      'subclass', 'failing'])
        c.outcomes('getattr', [], [c.S.EnvAttributeError])
        e.registered = c.choice('registered for the object', [
            'nothing', 'no proxy', 'checker'])
        tables = {'granted': c.S.CheckerPublic, 'other': None}
        mine = c.S.Checker({'own': 'zope.View'}, {})
        if kind == 'declared':
            e.value = Declared(c.choice('declared', [inner, None]))
        elif kind == 'failing':
            e.value = c.obj('failing', ops=())
            c.outcomes('getattr', [], [c.S.EnvError])
        elif kind == 'plain':
            e.value = c.obj('plain', ops=())
        else:
            e.value = Plain()
        t = type(e.value)
        if e.registered == 'no proxy':
            reg[t] = c.S.NoProxy
        elif e.registered == 'checker':
            reg[t] = c.obj('inner registered', methods={
                'check': dict(results=[None]),
                'check_getattr': dict(results=[None], alias='check'),
                'check_setattr': dict(results=[None])}, ops=(),
                isa=(c.S.Checker,))
        if kind in ('proxy', 'subclass'):
            e.value = (c.S.Proxy if kind == 'proxy' else c.S.SubProxy)(
                e.value, inner)
        e.kind = kind
        e.inner = inner
        e.own = c.choice('registered for the decorator', [
            'nothing', 'no proxy', 'checker'])
        # (reading an absent checker through a decorator is the decorator's
        # own affair)
        c.require(not (e.nested and e.own == e.registered == 'no proxy'))
        if e.own == 'no proxy':
            reg[cls] = c.S.NoProxy
        elif e.own == 'checker':
            reg[cls] = c.S.Checker(tables, {'spam': c.S.CheckerPublic})
        return e

    def decorator(self, c, e):
        d = e.cls(e.value)
        return e.cls(d) if e.nested else d

    def impl(self, c, e):
        d = self.decorator(c, e)
        # (the descriptor itself, not whatever the object makes of the name)
        for k in e.cls.__mro__:
            if '__Security_checker__' in k.__dict__:
                x = k.__dict__['__Security_checker__']
                break
        return describe(c, e, x.__get__(d, e.cls))

    def spec(self, c, e):
        S = c.S
        if e.kind in ('proxy', 'subclass'):
            second = e.inner
        else:
            second = None
            if e.kind == 'failing':
                e.value.__Security_checker__
            elif e.kind == 'declared':
                second = e.value.__Security_checker__
            else:
                try:
                    e.value.__Security_checker__
                except AttributeError:
                    pass
            if second is None:
                second = c07.select(c, e.value)
        reg = S.checker._checkers
        first = reg.get(e.cls, S.checker._defaultChecker)
        if first is S.NoProxy:
            first = None
        if first is None and second is None:
            raise AttributeError()
        if first is None:
            return second
        if second is None:
            if not e.nested:
                return first
            return self.twice(c, e, first, None)
        if e.nested:
            return self.twice(c, e, first, second)
        return decide(c, e, first, second)

    def twice(self, c, e, first, second):
        """Two like decorators around one object."""
        if second is None:
            # first, then first again
            r = []
            for name in ('granted', 'spam'):
                for t in tables_of(c, first):
                    if t.get(name) is c.S.CheckerPublic:
                        r.append(('ret', None))
                    else:
                        r.append(('exc', c.S.ForbiddenAttribute(name,
                                                                e.obj)))
            return tuple(r)
        return decide(c, e, first, second)


@contract('C21', DE + 'DecoratedSecurityCheckerDescriptor.__set__',
          variants=['Decorator', 'Checked', 'LocationProxy'], refs=False)
class no_assignment:
    """The checker of a decorator cannot be assigned."""

    def setup(self, c):
        cls = {k.__name__: k for k in decorators(c)}[c.variant]
        return Env(cls=cls, value=Declared(c.obj('own')),
                   new=c.obj('new checker'))

    def impl(self, c, e):
        d = e.cls(e.value)
        try:
            d.__Security_checker__ = e.new
        finally:
            e.after = vars(e.value)['__Security_checker__']

    def spec(self, c, e):
        e.after = vars(e.value)['__Security_checker__']
        raise TypeError()


@contract('C21', DE + 'DecoratedSecurityCheckerDescriptor.__get__',
          history=False)
class descriptor_itself:
    def setup(self, c):
        return Env(cls=c.choice('class', decorators(c)))

    def impl(self, c, e):
        x = e.cls.__Security_checker__
        return isinstance(
            x, c.S.decorator.DecoratedSecurityCheckerDescriptor)

    def spec(self, c, e):
        return True
