"""Name-based checkers: C05 (reads), C06 (writes, construction)."""
import operator

from vc.dsl import contract, Env, AnyException

# docs/api/checker: the names that never need a declaration
AVAILABLE = [
    '__lt__', '__le__', '__eq__', '__gt__', '__ge__', '__ne__',
    '__hash__', '__bool__', '__class__', '__providedBy__', '__implements__',
    '__repr__', '__conform__', '__name__', '__parent__',
]


class Name(str):
    """A name of a class of its own."""


NAMES = [Name('__iter__'), Name('__class__'), 'spam', '__iter__', '__str__', '__class__', '__repr__', '_x', '',
         '\udc80', '__\udc80', '__iter__\0', '__call__', '__', 'x\u20ac',
         '__Iter__', '__getitem__']

FN = ('zope.security.checker:CheckerPy.%s',
      '_zope_security_checker.c:%s', '_zope_security_checker.c:checkPermission')


def fns(py, c):
    return (FN[0] % py, FN[1] % c, FN[2])


def perms(c):
    p = c.obj('perm', ops=(), eqev=True)
    return [c.S.CheckerPublic, None, lambda: p, 'zope.View', '']


def interaction(c):
    c.S.thread_local.__dict__.clear()
    how = c.choice('interaction', ['active', 'absent', 'odd'])
    inter = c.obj('interaction', methods={
        'checkPermission': dict(result='truth')})
    if how == 'active':
        c.S.thread_local.interaction = inter
    elif how == 'odd':
        c.S.thread_local.interaction = None
    return inter if how == 'active' else None


def decide(c, e, permission, obj, name):
    """The decision for a declared permission."""
    if permission is c.S.CheckerPublic:
        return
    if e.inter is None:
        raise AnyException()
    if e.inter.checkPermission(permission, obj):
        return
    raise c.S.Unauthorized(obj, name, permission)


def readable(c, e, obj, name):
    permission = e.gets.get(name)
    if permission is not None:
        return decide(c, e, permission, obj, name)
    if name in AVAILABLE:
        return
    if name == '__iter__' and not hasattr(obj, name):
        return
    raise c.S.ForbiddenAttribute(name, obj)


def writable(c, e, obj, name):
    permission = e.sets.get(name)
    if permission is not None:
        return decide(c, e, permission, obj, name)
    raise c.S.ForbiddenAttribute(name, obj)


def base_setup(c):
    e = Env(name=c.str('name', NAMES), obj=c.obj('object'))
    c.outcomes('getattr', ['obj'])
    e.inter = interaction(c)

    def make():
        gets = c.table('gets', [e.name, 'other'], perms(c))
        if c.is_c and c.flag('no write table'):
            # (asking the checker for its table would give it one)
            return c.S.Checker(gets), gets, {}
        sets = gets if c.flag('one table for both') else \
            c.table('sets', [e.name], perms(c))
        checker = c.S.Checker(gets, sets)
        return checker, checker.get_permissions, checker.set_permissions
    e.checker, e.gets, e.sets = c.pool('checker', make)
    return e


@contract('C05', *fns('check', 'Checker_check_int'),
          variants=['check', 'check_getattr', 'slot'], watch=True)
class check:
    setup = staticmethod(base_setup)

    def setup(self, c):
        e = base_setup(c)
        c.outcomes('getattr', ['obj'], [c.S.EnvAttributeError])
        return e

    def impl(self, c, e):
        if c.variant == 'slot' and c.is_c:
            operator.setitem(e.checker, e.obj, e.name)
            return None
        if c.variant == 'check':
            return e.checker.check(e.obj, e.name)
        return e.checker.check_getattr(e.obj, e.name)

    def spec(self, c, e):
        return readable(c, e, e.obj, e.name)


@contract('C06', *fns('check_setattr', 'Checker_check_setattr'), watch=True)
class check_setattr:
    def setup(self, c):
        return base_setup(c)

    def impl(self, c, e):
        return e.checker.check_setattr(e.obj, e.name)

    def spec(self, c, e):
        return writable(c, e, e.obj, e.name)
