"""What only trusted code may do (C22)."""
from vc.dsl import contract, Env, AnyException
from contracts.c07_protect import Liar

PX = 'zope.security.proxy:'
CP = '_proxy.c:'


def any_value(c):
    kind = c.choice('kind', ['proxy', 'subclass', 'proxy of proxy', 'object',
                             'number', 'None', 'class', 'the class itself',
                             'claims to be a proxy', 'location proxy'])
    obj = c.obj('object')
    k = c.obj('checker', ops=())
    e = Env(kind=kind, obj=obj, checker=k, is_proxy=False)
    if kind in ('proxy', 'subclass', 'proxy of proxy'):
        e.is_proxy = True
        cls = c.S.SubProxy if kind == 'subclass' else c.S.Proxy
        if kind == 'proxy of proxy':
            e.obj = c.S.Proxy(obj, c.obj('inner checker', ops=()))
        e.value = cls(e.obj, k)
        return e
    if kind == 'location proxy':
        from zope.location import LocationProxy
        e.value = LocationProxy(c.S.Proxy(obj, k))
    else:
        e.value = {'object': obj, 'number': 12345, 'None': None,
                   'class': int, 'the class itself': c.S.Proxy,
                   'claims to be a proxy': Liar(c.S.Proxy)}[kind]
    return e


GET = {
    'proxy.removeSecurityProxy': lambda c: c.S.proxy.removeSecurityProxy,
    'proxy.getObject': lambda c: c.S.proxy.getObject,
    'proxy.getObjectPy': lambda c: c.S.proxy.getObjectPy if not c.is_c
    else c.S.proxy.getObject,
    'checker.getObject': lambda c: getattr(c.S.checker, 'getObject',
                                           c.S.proxy.getObject),
    'adapter.removeSecurityProxy': lambda c: getattr(
        c.S.adapter, 'removeSecurityProxy', c.S.proxy.getObject),
}


@contract('C22', PX + 'getObjectPy', CP + 'module_getObject',
          variants=sorted(GET))
class getObject:
    def setup(self, c):
        return any_value(c)

    def impl(self, c, e):
        return GET[c.variant](c)(e.value) is (
            e.obj if e.is_proxy else e.value)

    def spec(self, c, e):
        return True


@contract('C22', PX + 'getCheckerPy', CP + 'module_getChecker',
          variants=['getChecker', 'getCheckerPy'])
class getChecker:
    def setup(self, c):
        e = any_value(c)
        return e

    def impl(self, c, e):
        f = c.S.proxy.getChecker if c.is_c else \
            getattr(c.S.proxy, c.variant)
        return f(e.value) is e.checker

    def spec(self, c, e):
        if not e.is_proxy:
            raise TypeError()
        return True


@contract('C22', PX + 'isinstance', refs=False)
class isinstance_:
    """isinstance() answers for the real object."""

    def setup(self, c):
        e = Env()
        T = c.type('T')
        e.obj = c.choice('object', [c.obj('object', ops=()),
                                    c.obj('instance', isa=(T,), ops=()),
                                    12345, T, None])
        kind = c.choice('kind', ['bare', 'proxy', 'subclass'])
        e.value = e.obj
        if kind != 'bare':
            e.value = (c.S.Proxy if kind == 'proxy' else c.S.SubProxy)(
                e.obj, c.obj('checker', ops=()))
        e.cls = c.choice('class', [T, int, (str, T), type, c.S.Proxy,
                                   object, (), (c.S.Proxy, type(None)),
                                   type(e.obj)])
        return e

    def impl(self, c, e):
        return c.S.proxy.isinstance(e.value, e.cls)

    def spec(self, c, e):
        import builtins
        return builtins.isinstance(e.obj, e.cls)


@contract('C22', PX + 'getTestProxyItems')
class getTestProxyItems:
    def setup(self, c):
        e = Env(gets=c.table('gets', ['spam', 'eggs', 'b'], [
            'zope.View', 'zope.Edit']))
        e.p = c.S.Proxy(c.obj('object'), c.S.Checker(e.gets))
        return e

    def impl(self, c, e):
        return c.S.proxy.getTestProxyItems(e.p)

    def spec(self, c, e):
        return sorted(e.gets.items())


# --- code that holds only the proxy ------------------------------------------------
class Untrusted:
    """Attribute access by any means the language offers."""


def read(p, name):
    return getattr(p, name)


def read_default(p, name):
    return getattr(p, name, None)


def write(p, name):
    setattr(p, name, 12345)


def delete(p, name):
    delattr(p, name)


def by_type(p, name):
    return type(p).__getattribute__(p, name)


def by_type_write(p, name):
    type(p).__setattr__(p, name, 12345)


def by_type_delete(p, name):
    type(p).__delattr__(p, name)


WAYS = dict(read=read, read_default=read_default, write=write,
            delete=delete, by_type=by_type, by_type_write=by_type_write,
            by_type_delete=by_type_delete)

HIDDEN = ['_wrapped', '_checker', '__dict__', '__class__', '_Proxy__wrapped',
          'object', 'checker', '__slots__', '__weakref__', 'spam',
          'proxy_object', 'proxy_checker', '__self__', '__wrapped__',
          '__getattribute__', '__reduce__', '__reduce_ex__', '__getattr__',
          '__setattr__', '__init__', '__repr__', '__str__', '__eq__',
          '__hash__', '__call__', '__module__', '__doc__', '__copy__',
          '__deepcopy__', '__iter__', '__bool__', '__getstate__',
          '__setstate__', '__sizeof__', '__format__', '__dir__',
          '__subclasshook__', '__init_subclass__', '__new__', '__len__',
          '__lt__', '__le__', '__gt__', '__ge__', '__ne__']


@contract(['C22', 'C02'], PX + 'ProxyPy.__getattribute__',
          PX + 'ProxyPy.__getattr__', PX + 'ProxyPy.__setattr__',
          PX + 'ProxyPy.__delattr__', CP + 'proxy_getattro',
          CP + 'proxy_setattro', variants=sorted(WAYS), history=False)
class unreachable:
    """With a checker that allows everything and protects every result,
    no name gives away, or replaces, the object or the checker."""

    def setup(self, c):
        e = Env(name=c.str('name', HIDDEN))
        e.obj = c.obj('object')
        handed = []

        def mark(p, args):
            # whatever the checker is given to protect comes back protected
            return c.S.Proxy(args[1][0], e.checker)
        m = {'check': dict(results=[None]),
             'check_getattr': dict(results=[None]),
             'check_setattr': dict(results=[None]),
             'proxy': dict(results=[mark], exc=())}
        e.checker = c.obj('checker', methods=m, ops=())
        e.p = c.choice('class', [c.S.Proxy, c.S.SubProxy])(e.obj, e.checker)
        c.outcomes('getattr', ['obj', lambda p, a: e.obj,
                               lambda p, a: e.checker],
                   [c.S.EnvAttributeError])
        return e

    def impl(self, c, e):
        x = c.capture(lambda: WAYS[c.variant](e.p, e.name))
        # (the operations themselves are the matter of C01 and C03)
        c.forget_events()
        bad = e.obj, e.checker
        if x[0] == 'ret' and any(x[1] is b for b in bad):
            return 'reached'
        o, k = c.w.referents(e.p)
        if o is not e.obj or k is not e.checker:
            return 'replaced'
        return 'safe'

    def spec(self, c, e):
        return 'safe'


@contract('C22', PX + 'ProxyPy.__getattribute__', CP + 'proxy_getattro',
          history=False, variants=['_wrapped', '_checker'],
          again=False)
class named_self:
    """Code that holds the proxy in a variable of any name."""

    def setup(self, c):
        e = Env(obj=c.obj('object'))
        e.var = c.choice('variable', ['proxy', 'self'])
        m = {n: dict(results=[None]) for n in ('check', 'check_getattr',
                                               'check_setattr')}
        m['proxy'] = dict(results=['obj'], exc=())
        e.checker = c.obj('checker', methods=m, ops=())
        c.outcomes('getattr', ['obj'], [c.S.EnvAttributeError])
        e.p = c.S.Proxy(e.obj, e.checker)
        return e

    def impl(self, c, e):
        ns = {}
        exec('def f(%s):\n    return %s.%s' % (e.var, e.var, c.variant), ns)
        x = c.capture(lambda: ns['f'](e.p))
        c.forget_events()
        if x[0] == 'ret' and (x[1] is e.obj or x[1] is e.checker):
            return 'reached by naming a variable ' + e.var
        return 'safe'

    def spec(self, c, e):
        return 'safe'
