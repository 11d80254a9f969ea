"""Protecting values (C07), choosing checkers (C08), construction (C06)."""
from vc.dsl import contract, Env, AnyException

CK = 'zope.security.checker:'
CC = '_zope_security_checker.c:'
PX = 'zope.security.proxy:'
CP = '_proxy.c:'


# --- a value and what the registry says about its type ----------------------
def entry(c, value, unregistered=True):
    """Register anything for the type of the value."""
    # (checkers may be false)
    truth = c.flag('truth of checkers')
    ck = c.obj('registered checker', isa=(c.S.Checker,), ops=(), truth=truth)
    ck2 = c.obj('checker from factory', isa=(c.S.Checker,), ops=(),
                truth=truth)
    f = [c.obj('factory', ops=('__call__',)),
         c.obj('second factory', ops=('__call__',)),
         c.obj('third factory', ops=('__call__',))]

    def another(p, a):
        return ck2 if a[0] is f[2] else f[2] if a[0] is f[1] else f[1]
    c.outcomes('call', [lambda p, a: ck2, None, lambda p, a: c.S.NoProxy,
                        another])
    reg = c.choice('registered', ['nothing', 'checker', 'no proxy',
                                  'function'])
    if reg == 'checker':
        c.S.checker._checkers[type(value)] = ck
    elif reg == 'no proxy':
        c.S.checker._checkers[type(value)] = c.S.NoProxy
    elif reg == 'function':
        c.S.checker._checkers[type(value)] = f[0]


def select(c, value):
    """The checker chosen for a value."""
    reg = c.S.checker._checkers
    if type(value) not in reg:
        if c.is_c and isinstance(value, Exception):
            return None
        return c.S.checker._defaultChecker
    checker = reg[type(value)]
    if checker is c.S.NoProxy:
        return None
    while not isinstance(checker, c.S.Checker):
        checker = checker(value)
        if checker is None or checker is c.S.NoProxy:
            return None
    return checker


def a_value(c, **kw):
    kind = c.choice('value', ['object', 'subclass', 'exception'])
    if kind == 'exception':
        return c.obj('exception', isa=(Exception,), ops=(), **kw)
    if kind == 'subclass':
        base = c.type('base')
        # a registration for the superclass never counts
        c.S.checker._checkers[base] = c.S.NoProxy
        return c.obj('instance', isa=(base,), ops=(), **kw)
    return c.obj('object', ops=(), **kw)


@contract('C08', CK + 'selectCheckerPy', CC + 'selectChecker', watch=True)
class selectChecker:
    def setup(self, c):
        e = Env(value=a_value(c))
        entry(c, e.value)
        return e

    def impl(self, c, e):
        return c.S.checker.selectChecker(e.value)

    def spec(self, c, e):
        return select(c, e.value)


@contract('C08', CK + 'selectCheckerPy', watch=True, configs=('py',))
class selectCheckerPy(selectChecker):
    def impl(self, c, e):
        return c.S.checker.selectCheckerPy(e.value)


@contract('C08', CK + 'selectCheckerPy', CC + 'selectChecker', watch=True,
          history=False, sym=False, variants=['selectChecker',
                                              'selectCheckerPy'],
          bounded='a chain of 200 factories; any length is proved')
class long_chain:
    def setup(self, c):
        e = Env(value=c.obj('object', ops=()), calls=[])
        e.last = c.choice('last', [c.obj('checker', isa=(c.S.Checker,),
                                         ops=()), None, c.S.NoProxy])
        chain = [e.last]
        for n in range(c.choice('length', [7, 40, 200])):
            def factory(value, n=n, then=chain[-1]):
                e.calls.append((n, value))
                return then
            chain.append(factory)
        e.length = len(chain) - 1
        c.S.checker._checkers[type(e.value)] = chain[-1]
        return e

    def impl(self, c, e):
        return getattr(c.S.checker, c.variant)(e.value)

    def spec(self, c, e):
        e.calls += [(n, e.value) for n in reversed(range(e.length))]
        return None if e.last is c.S.NoProxy else e.last


@contract('C08', CK + 'getCheckerForInstancesOf', watch=True)
class getCheckerForInstancesOf:
    def setup(self, c):
        e = Env(value=c.obj('object', ops=()))
        entry(c, e.value)
        return e

    def impl(self, c, e):
        return c.S.checker.getCheckerForInstancesOf(type(e.value))

    def spec(self, c, e):
        return c.S.checker._checkers.get(type(e.value))


@contract('C08', CK + '_instanceChecker', CK + 'moduleChecker', watch=True)
class module_and_instance:
    def setup(self, c):
        e = Env(value=c.obj('object', ops=()))
        e.other = c.obj('other', ops=())
        reg = c.choice('registered', ['nothing', 'checker'])
        e.key = c.choice('key', [type(e.value), e.value])
        if reg == 'checker':
            c.S.checker._checkers[e.key] = c.obj('registered checker',
                                                 ops=())
        return e

    def impl(self, c, e):
        return (c.S.checker._instanceChecker(e.value),
                c.S.checker.moduleChecker(e.value))

    def spec(self, c, e):
        reg = c.S.checker._checkers
        return (reg.get(type(e.value), c.S.checker._defaultChecker),
                reg.get(e.value))


@contract('C08', CK + '_defaultChecker', history=False, watch=True)
class default_checker:
    """The default checker grants only the always-available names."""

    def setup(self, c):
        return Env()

    def impl(self, c, e):
        d = c.S.checker._defaultChecker
        return (dict(d.get_permissions), dict(d.set_permissions),
                type(d) is c.S.Checker or c.watch)

    def spec(self, c, e):
        return {}, {}, True


# --- protecting -------------------------------------------------------------
def own_checker(c, value):
    """The value's own declared checker, if any."""
    if c.is_c:
        try:
            r = value.__Security_checker__
        except BaseException as x:
            c.has_exc(x)
            return None, False
        return r, True
    try:
        return value.__Security_checker__, True
    except AttributeError:
        return None, False


def protected(c, value):
    """The value as a checker hands it out."""
    if isinstance(value, c.S.Proxy):
        return value
    own, has = own_checker(c, value)
    if has and own is not None:
        return c.wrap(value, own)
    if has and c.is_c:
        raise ValueError()
    checker = select(c, value)
    if checker is None:
        return value
    return c.wrap(value, checker)


class Liar:
    """An object that claims any class."""

    def __init__(self, cls):
        self.cls = cls
        self._wrapped = 'wrapped'
        self._checker = 'checker'

    @property
    def __class__(self):
        return object.__getattribute__(self, 'cls')


def isinstance(x, cls):
    """Only the real type counts."""
    return issubclass(type(x), cls)


def own_outcomes(c):
    own = c.truthy('own checker', c.obj('own checker', ops=()))
    c.outcomes('getattr', [lambda p, a: own, None],
               [c.S.EnvAttributeError, c.S.EnvError])
    return own


def a_proxy(c, name, sub=False):
    cls = c.S.SubProxy if sub else c.S.Proxy
    return cls(c.obj('object ' + name), c.obj('checker ' + name, ops=()))


@contract(['C07', 'C02'], CK + 'CheckerPy.proxy', CC + 'Checker_proxy',
          watch=True, variants=['proxy', 'slot'])
class checker_proxy:
    def setup(self, c):
        kind = c.choice('kind', ['plain', 'proxy', 'number', 'text', 'None',
                                 'list', 'claims to be a proxy'])
        own_outcomes(c)
        e = Env(checker=c.S.Checker({}))
        if kind == 'plain':
            e.value = a_value(c)
            entry(c, e.value)
        elif kind == 'proxy':
            e.value = a_proxy(c, 'p', not c.is_c and c.flag('subclass'))
        else:
            e.value = {'number': 12345, 'text': 'spam', 'None': None,
                       'list': [1],
                       'claims to be a proxy': Liar(c.S.Proxy)}[kind]
        return e

    def impl(self, c, e):
        if c.variant == 'slot' and c.is_c and not c.watch:
            return e.checker[e.value]
        return e.checker.proxy(e.value)

    def spec(self, c, e):
        return protected(c, e.value)


@contract('C07', CK + 'ProxyFactory', watch=True)
class ProxyFactory:
    def setup(self, c):
        kind = c.choice('kind', ['plain', 'proxy', 'number', 'list',
                                 'claims to be a proxy'])
        own_outcomes(c)
        e = Env()
        given = c.truthy('checkers', c.obj('given checker', ops=(),
                                           eqev=True))
        e.args = ()
        if kind == 'plain':
            e.value = a_value(c)
            entry(c, e.value)
            e.args = c.choice('checker', [(), (None,), (given,)])
        elif kind == 'proxy':
            obj = c.obj('object p')
            own = c.obj('checker p', ops=(), eqev=True)
            e.value = (c.S.SubProxy if c.flag('subclass') else c.S.Proxy)(
                obj, own)
            e.args = c.choice('checker', [(), (None,), (given,), (own,)])
            e.own = own
        else:
            e.value = {'number': 12345, 'list': [1],
                       'claims to be a proxy': Liar(c.S.Proxy)}[kind]
            e.args = c.choice('checker', [(), (None,), (given,)])
        return e

    def impl(self, c, e):
        return c.S.proxy.ProxyFactory(e.value, *e.args)

    def spec(self, c, e):
        given = e.args[0] if e.args else None
        if isinstance(e.value, c.S.Proxy):
            if given is None or given is e.own:
                return e.value
            raise TypeError()
        if given is not None:
            return c.wrap(e.value, given)
        try:
            own = e.value.__Security_checker__
        except AttributeError:
            own = None
        if own is None:
            own = select(c, e.value)
            if own is None:
                return e.value
        return c.wrap(e.value, own)


@contract(['C07', 'C22'], PX + 'ProxyPy.__new__', PX + 'ProxyPy.__init__',
          CP + 'proxy_new', CP + 'proxy_init')
class construct:
    def setup(self, c):
        e = Env()
        e.obj = c.choice('object', [c.obj('object'), None, 12345,
                                    a_proxy(c, 'p')])
        e.checker = c.choice('checker', [c.obj('checker', ops=()), None,
                                         12345])
        e.cls = c.choice('class', [c.S.Proxy, c.S.SubProxy])
        e.kw = c.flag('keywords') and c.is_c
        return e

    def impl(self, c, e):
        if e.kw:
            return e.cls(checker=e.checker, object=e.obj)
        return e.cls(e.obj, e.checker)

    def spec(self, c, e):
        if e.checker is None:
            raise ValueError()
        r = c.wrap(e.obj, e.checker)
        return (type(r) is c.S.Proxy, r) and (
            r if e.cls is c.S.Proxy else c.S.SubProxy(e.obj, e.checker))

    def observe(self, c, e):
        if e.checker is None:
            return None
        r = e.cls(e.obj, e.checker)
        o, k = c.w.referents(r)
        return type(r) is e.cls, o is e.obj, k is e.checker


@contract(['C07', 'C22', 'C23'], CP + 'proxy_init', configs=('c',),
          sym=False)
class reinit:
    """Initializing a proxy again changes nothing."""

    def setup(self, c):
        e = Env(p=a_proxy(c, 'p', c.flag('subclass')))
        e.args = c.choice('args', [(), (1, 2), (None, None), (1,)])
        return e

    def impl(self, c, e):
        return c.S.Proxy.__init__(e.p, *e.args)

    def spec(self, c, e):
        return None

    def observe(self, c, e):
        return c.w.referents(e.p)


@contract(['C07', 'C23'], CP + 'proxy_new', configs=('c',), sym=False)
class construct_wrong:
    """Creating a proxy from wrong arguments fails."""

    def setup(self, c):
        return Env(args=c.choice('args', [(), (1,), (1, 2, 3)]),
                   kw=c.choice('kw', [{}, {'spam': 1}, {'object': 1},
                                      {'checker': None}]))

    def impl(self, c, e):
        return c.S.Proxy(*e.args, **e.kw)

    def spec(self, c, e):
        if len(e.args) == 1 and 'checker' in e.kw:
            raise ValueError()
        raise TypeError()


# --- construction of name-based checkers (C06) --------------------------------
def tables(c):
    def t():
        return c.choice('table', [
            lambda: {'spam': 'zope.View'}, lambda: {},
            lambda: type('SubDict', (dict,), {})() if 0 else {'x': None},
            lambda: None, lambda: 12345, lambda: [('spam', 1)],
            lambda: c.obj('table', ops=())])()
    n = c.choice('arguments', [1, 2])
    return tuple(t() for i in range(n))


@contract('C06', CK + 'CheckerPy.__init__', CC + 'Checker_init', watch=True)
class checker_init:
    def setup(self, c):
        return Env(args=tables(c), name=c.str('name', ['spam', 'x', 'y']))

    def impl(self, c, e):
        k = c.S.Checker(*e.args)
        # the tables given are the ones used
        return (k, k.get_permissions is e.args[0],
                len(e.args) < 2 or e.args[1] is None or
                k.set_permissions is e.args[1],
                k.permission_id(e.name), k.setattr_permission_id(e.name),
                k.get_permissions, k.set_permissions)

    def spec(self, c, e):
        gets = e.args[0]
        sets = e.args[1] if len(e.args) > 1 else {}
        if sets is None and not c.is_c:
            sets = {}
        if not isinstance(gets, dict) or not isinstance(sets, dict):
            raise TypeError()
        return (c.S.Checker(gets, sets), True, True, gets.get(e.name),
                sets.get(e.name), gets, sets)


@contract('C06', CK + 'CheckerPy.permission_id', CC + 'Checker_permission_id',
          CK + 'CheckerPy.setattr_permission_id',
          CC + 'Checker_setattr_permission_id', watch=True)
class permission_ids:
    def setup(self, c):
        e = Env(name=c.str('name', ['spam', '__class__', '\udc80', '',
                                    '__iter__']))
        p = c.obj('perm', ops=(), eqev=True)
        vals = [c.S.CheckerPublic, None, lambda: p, 'zope.View']

        def make():
            gets = c.table('gets', [e.name, 'other'], vals)
            if c.flag('no write table'):
                k = c.S.Checker(gets)
                # the table of this checker alone
                k.set_permissions.update(c.table('more', [e.name], vals))
                return k
            return c.S.Checker(gets, c.table('sets', [e.name, 'other'],
                                             vals))
        e.checker = c.pool('checker', make)
        return e

    def impl(self, c, e):
        return (e.checker.permission_id(e.name),
                e.checker.setattr_permission_id(e.name))

    def spec(self, c, e):
        return (e.checker.get_permissions.get(e.name),
                e.checker.set_permissions.get(e.name))


@contract('C23', CC + 'Checker_init', CC + 'Checker_get_get_permissions',
          CC + 'Checker_get_set_permissions', configs=('c',), sym=False)
class checker_reinit:
    """A checker initialized again uses (only) the new tables."""

    def setup(self, c):
        e = Env(_checker=c.S.Checker({'spam': 1}, {'x': 2}))
        e.args = c.choice('args', [
            lambda: ({'y': 1},), lambda: ({'y': 1}, {'z': 2}),
            lambda: (1,), lambda: ({}, 1), lambda: (),
            lambda: (e._checker.get_permissions,
                     e._checker.set_permissions)])()
        return e

    def impl(self, c, e):
        e._checker.__init__(*e.args)
        return e._checker.get_permissions, e._checker.set_permissions

    def spec(self, c, e):
        if not e.args or not all(isinstance(a, dict) for a in e.args):
            raise TypeError()
        return (e.args + ({},))[:2]


@contract('C23', CC + '*', configs=('c',), sym=False)
class checker_odd_calls:
    """Odd arguments fail without damage."""

    def setup(self, c):
        e = Env(checker=c.S.Checker({'spam': c.S.CheckerPublic}))
        e.obj = c.obj('object')
        e.name = c.choice('name', [None, 12345, b'spam', [], c.obj('n')])
        e.how = c.choice('how', ['check', 'check_getattr', 'check_setattr',
                                 'del', 'few', 'many'])
        return e

    def impl(self, c, e):
        k = e.checker
        if e.how == 'del':
            del k[e.obj]
        elif e.how == 'few':
            k.check(e.obj)
        elif e.how == 'many':
            k.check(e.obj, 'spam', 1)
        else:
            getattr(k, e.how)(e.obj, e.name)

    def spec(self, c, e):
        if e.how in ('del', 'few', 'many'):
            raise TypeError()
        if isinstance(e.name, list):
            raise AnyException()
        raise c.S.ForbiddenAttribute(e.name, e.obj)
