"""Combined and logging checkers, access queries (C09, C10, C11)."""
import operator

from vc.dsl import contract, Env, AnyException
from contracts import c05_checker as c05
from contracts import c07_protect as c07

CK = 'zope.security.checker:'


class Failing(Exception):
    pass


def bad_repr(self, *spec):
    raise Failing('no representation')


BAD = tuple((n, bad_repr) for n in ('__repr__', '__str__', '__format__'))


def target(c):
    """The object: representing it may fail."""
    if c.watch and c.flag('representation fails'):
        return c.obj('object without representation',
                     attrs=BAD)
    return c.obj('object')


def first(c, e):
    """The tables of the (first) checker."""
    def make():
        vals = c05.perms(c)
        return (c.table('gets', [e.name], vals),
                c.table('sets', [e.name], vals))
    return c.pool('tables', make)


def ask(c, k, how, obj, name):
    if how == 'check':
        return k.check(obj, name)
    if how == 'check_getattr':
        return k.check_getattr(obj, name)
    if how == 'slot':
        return operator.setitem(k, obj, name)
    return k.check_setattr(obj, name)


HOWS = ['check', 'check_getattr', 'slot', 'check_setattr']


@contract(['C09', 'C11'], CK + 'CombinedChecker.check',
          CK + 'CombinedChecker.check_setattr', watch=True, variants=HOWS)
class combined:
    def setup(self, c):
        e = Env(name=c.str('name', ['spam', '__class__', '__iter__', ''],
                           mined=False), obj=target(c))
        c.outcomes('getattr', ['obj'], [c.S.EnvAttributeError])
        e.inter = c05.interaction(c)
        e.gets, e.sets = first(c, e)
        # (a checker may be asked to check or to check a read: same answer)
        e.second = c.obj('second checker', methods={
            'check': dict(results=[None, False]),
            'check_getattr': dict(results=[None, False], alias='check'),
            'check_setattr': dict(results=[None, False])})
        e.checker = c.S.checker.CombinedChecker(
            c.S.Checker(e.gets, e.sets), e.second)
        return e

    def impl(self, c, e):
        return ask(c, e.checker, c.variant, e.obj, e.name)

    def spec(self, c, e):
        read = c.variant != 'check_setattr'
        first = None
        try:
            return c05.readable(c, e, e.obj, e.name) if read else \
                c05.writable(c, e, e.obj, e.name)
        except c.S.ForbiddenAttribute:
            pass
        except c.S.Unauthorized as x:
            first = x
        try:
            if read:
                e.second.check(e.obj, e.name)
            else:
                e.second.check_setattr(e.obj, e.name)
        except c.S.ForbiddenAttribute:
            if first is not None:
                raise first
            raise


@contract(['C09', 'C06', 'C11'], CK + 'CombinedChecker.__init__', watch=True)
class combined_init:
    """A combined checker reports (and uses) the tables of the first."""

    def setup(self, c):
        e = Env(gets={'spam': 1}, sets={'x': 2})
        e.first = c.S.Checker(e.gets, e.sets)
        e.second = c.obj('second checker', ops=())
        return e

    def impl(self, c, e):
        k = c.S.checker.CombinedChecker(e.first, e.second)
        return (k.get_permissions is e.gets, k.set_permissions is e.sets,
                isinstance(k, c.S.Checker))

    def spec(self, c, e):
        return True, True, True


# --- logging -----------------------------------------------------------------
class Log:
    """Counts the lines of the log."""
    _vc_skip = True

    def __init__(self):
        self.lines = []

    def write(self, s):
        self.lines.append(1)


@contract('C11', CK + 'CheckerLoggingMixin.check',
          CK + 'CheckerLoggingMixin.check_getattr',
          CK + 'CheckerLoggingMixin.check_setattr',
          CK + 'CheckerLoggingMixin._log', CK + '_safe_repr',
          variants=HOWS)
class watching:
    def setup(self, c):
        e = Env(name=c.str('name', ['spam', '__class__', '__iter__', ''],
                           mined=False))
        e.obj = c.obj('object without representation',
                      attrs=BAD) \
            if c.flag('representation fails') else c.obj('object')
        c.outcomes('getattr', ['obj'], [c.S.EnvAttributeError])
        e.inter = c05.interaction(c)
        e.gets, e.sets = first(c, e)
        e._log = Log()
        e.checker = c.S.checker.WatchingChecker(e.gets, e.sets)
        e.checker.verbosity = e.verbosity = c.choice('verbosity',
                                                     [0, 1, 2, 10])
        e._calls = []
        return e

    def impl(self, c, e):
        e.checker._file = e._log
        before = len(e._log.lines)
        try:
            return ask(c, e.checker, c.variant, e.obj, e.name)
        finally:
            e._calls.append(len(e._log.lines) > before)
            del e.checker._file

    def spec(self, c, e):
        e._calls.append(None)
        try:
            r = c05.readable(c, e, e.obj, e.name) \
                if c.variant != 'check_setattr' else \
                c05.writable(c, e, e.obj, e.name)
        except (c.S.Unauthorized, c.S.ForbiddenAttribute):
            e._calls[-1] = 'refused'
            raise
        else:
            e._calls[-1] = 'granted'
            return r

    def observe(self, c, e):
        """Is the log as it must be?"""
        return [x if type(x) is bool else
                x == 'refused' and e.verbosity >= 1 or
                x == 'granted' and Same(e.verbosity > 1)
                for x in e._calls]


class Same:
    """True; or also False, if the grant may be logged."""

    def __init__(self, either):
        self.either = either


@contract('C11', CK + 'WatchingCombinedChecker', variants=HOWS)
class watching_combined:
    """A logging combined checker decides as the combined one."""

    def setup(self, c):
        e = combined.setup(self, c)
        e.checker = c.S.checker.WatchingCombinedChecker(
            c.S.Checker(e.gets, e.sets), e.second)
        e.checker.verbosity = c.choice('verbosity', [0, 1, 2])
        e.checker._file = Sink()
        return e

    impl = combined.impl
    spec = combined.spec


class Sink:
    _vc_skip = True

    def write(self, s):
        pass


@contract('C11', CK + 'WatchingChecker', watch=True)
class watching_proxy:
    """Values are protected by a logging checker as by any other."""

    def setup(self, c):
        kind = c.choice('kind', ['plain', 'proxy', 'number', 'list'])
        c07.own_outcomes(c)
        e = Env(checker=c.S.checker.WatchingChecker({}))
        if kind == 'plain':
            e.value = c07.a_value(c)
            c07.entry(c, e.value)
        elif kind == 'proxy':
            e.value = c07.a_proxy(c, 'p')
        else:
            e.value = {'number': 12345, 'list': [1]}[kind]
        return e

    def impl(self, c, e):
        return e.checker.proxy(e.value)

    def spec(self, c, e):
        return c07.protected(c, e.value)


# --- canAccess, canWrite --------------------------------------------------------
def subject(c):
    e = Env(name=c.str('name', ['spam', '__class__', ''], mined=False))
    kind = c.choice('kind', ['proxy', 'plain', 'unprotected'])
    x = c.w.default_exc('call:check') + [c.S.EnvAttributeError,
                                         c.S.NoInteraction]
    m = {'check': dict(results=[None, False], exc=x),
         'check_getattr': dict(results=[None, False], exc=x),
         'check_setattr': dict(results=[None, False], exc=x)}
    if kind == 'proxy':
        e.checker = c.obj('checker p', methods=m, ops=())
        e.value = (c.S.SubProxy if c.flag('subclass') else c.S.Proxy)(
            c.obj('object p'), e.checker)
    elif kind == 'unprotected':
        e.value = 12345
    else:
        own = c.obj('own checker', methods=m, ops=())
        c.outcomes('getattr', [lambda p, a: own, None],
                   [c.S.EnvAttributeError, c.S.EnvError])
        e.value = c.obj('object', ops=())
        reg = c.choice('registered', ['no', 'checker', 'no proxy'])
        if reg == 'checker':
            c.S.checker._checkers[type(e.value)] = c.obj(
                'registered checker', methods=m, isa=(c.S.Checker,), ops=())
        elif reg == 'no proxy':
            c.S.checker._checkers[type(e.value)] = c.S.NoProxy
    return e


def guarded(c, e):
    """The protected object, and the checker that guards it."""
    if isinstance(e.value, c.S.Proxy):
        return e.value, e.checker
    try:
        own = e.value.__Security_checker__
    except AttributeError:
        own = None
    if own is None:
        own = c07.select(c, e.value)
        if own is None:
            raise AnyException()          # not protected by any checker
    return c.wrap(e.value, own), own


@contract('C10', CK + 'canAccess')
class canAccess:
    def setup(self, c):
        return subject(c)

    def impl(self, c, e):
        return c.S.checker.canAccess(e.value, e.name)

    def spec(self, c, e):
        p, checker = guarded(c, e)
        try:
            checker.check_getattr(p, e.name)
        except c.S.Unauthorized:
            return False
        return True


@contract('C10', CK + 'canWrite')
class canWrite:
    def setup(self, c):
        return subject(c)

    def impl(self, c, e):
        return c.S.checker.canWrite(e.value, e.name)

    def spec(self, c, e):
        p, checker = guarded(c, e)
        try:
            checker.check_setattr(p, e.name)
        except c.S.Unauthorized:
            return False
        except c.S.ForbiddenAttribute:
            try:
                checker.check_getattr(p, e.name)
            except c.S.Unauthorized:
                return False
            return False
        return True
