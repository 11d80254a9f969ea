"""Security proxies: C01 (checks), C02 (protection), C03 (writes),
C04 (comparison, hash, truth, text)."""
import operator

from vc.dsl import contract, Env, AnyException

C = '_proxy.c:'
PY = 'zope.security.proxy:'


# --- inputs ----------------------------------------------------------------
def a_checker(c, name):
    m = {'check': dict(results=[None, False]),
         'check_getattr': dict(results=[None, False]),
         'check_setattr': dict(results=[None, False]),
         'proxy': dict(results=['obj', c.same_arg])}
    if c.is_c and c.flag('checker of %s has item slots' % name):
        return c.obj('slotchecker ' + name, methods=m,
                     ops=('__getitem__', '__setitem__'))
    return c.obj('checker ' + name, methods=m, ops=())


def a_proxy(c, name, sub=True, bare=False, **kw):
    def make():
        obj = c.obj('object ' + name, **kw)
        if bare:
            # objects without most operations
            obj = c.choice('kind of object', [obj, (1, 2), None])
        checker = a_checker(c, name)
        cls = c.S.SubProxy if sub and c.flag('subclass') else c.S.Proxy
        return obj, checker, cls(obj, checker)
    # (a history may use the same proxy again and again)
    return c.pool('proxy ' + name, make)


def a_value(c, e, name='operand', others=True):
    k = c.choice(name, ['object', 'proxy', 'number', 'the object',
                        'the proxy'] if others else ['object', 'number'])
    if k == 'object':
        return c.obj(name)
    if k == 'proxy':
        return a_proxy(c, name)[2]
    if k == 'number':
        return 12345
    return e.obj if k == 'the object' else e.p


# --- the vocabulary of the property ----------------------------------------
def slots(c, e):
    return c.is_c and hasattr(type(e.checker), '__setitem__')


def ask(c, e, name):
    if slots(c, e):
        e.checker[e.obj] = name
    else:
        e.checker.check(e.obj, name)


def ask_read(c, e, name):
    if slots(c, e):
        e.checker[e.obj] = name
    else:
        e.checker.check_getattr(e.obj, name)


def ask_write(c, e, name):
    e.checker.check_setattr(e.obj, name)


def protect(c, e, value):
    if slots(c, e):
        return e.checker[value]
    return e.checker.proxy(value)


def checked(c, e, name, op):
    ask(c, e, name)
    return protect(c, e, op())


def reflected(c, e, x, name, op):
    """x OP proxy, where x is not a security proxy."""
    return checked(c, e, name, op)


BIN = {
    'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
    'truediv': operator.truediv, 'floordiv': operator.floordiv,
    'mod': operator.mod, 'divmod': divmod, 'lshift': operator.lshift,
    'rshift': operator.rshift, 'and': operator.and_, 'xor': operator.xor,
    'or': operator.or_, 'pow': operator.pow,
}
INP = {
    'iadd': operator.iadd, 'isub': operator.isub, 'imul': operator.imul,
    'itruediv': operator.itruediv, 'ifloordiv': operator.ifloordiv,
    'imod': operator.imod, 'ilshift': operator.ilshift,
    'irshift': operator.irshift, 'iand': operator.iand,
    'ixor': operator.ixor, 'ior': operator.ior, 'ipow': operator.ipow,
}
UN = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs,
      'invert': operator.invert}


def dunder(n):
    return '__%s__' % n


@contract(['C01', 'C02'], C + '*', PY + '*', variants=sorted(UN))
class unary:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        return e

    def impl(self, c, e):
        return UN[c.variant](e.p)

    def spec(self, c, e):
        return checked(c, e, dunder(c.variant),
                       lambda: UN[c.variant](e.obj))


CONV = {'int': int, 'float': float, 'index': operator.index,
        'complex': complex}


@contract(['C01', 'C02'], C + '*', PY + '*', variants=sorted(CONV))
class convert:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        return e

    def impl(self, c, e):
        if c.is_c and c.variant == 'complex':
            return complex(e.p)
        return getattr(type(e.p), dunder(c.variant))(e.p)

    def spec(self, c, e):
        if not c.is_c or c.variant == 'index':
            return checked(c, e, dunder(c.variant),
                           lambda: CONV[c.variant](e.obj))
        if c.variant == 'complex':           # goes through float
            r = checked(c, e, '__float__', lambda: c.slot(
                e.obj, '__float__'))
            if not isinstance(r, float):
                raise TypeError()
            return complex(r)
        return checked(c, e, dunder(c.variant),
                       lambda: c.slot(e.obj, dunder(c.variant)))


@contract(['C01', 'C02'], C + '*', PY + '*', variants=sorted(BIN))
class binary:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        e.other = a_value(c, e)
        return e

    def impl(self, c, e):
        return BIN[c.variant](e.p, e.other)

    def spec(self, c, e):
        return checked(c, e, dunder(c.variant),
                       lambda: BIN[c.variant](e.obj, e.other))


@contract(['C01', 'C02'], C + '*', PY + '*', variants=sorted(BIN))
class right:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p', bare=True)
        k = c.choice('left', ['object', 'the object', 'number'])
        e.other = c.obj('left') if k == 'object' else \
            e.obj if k == 'the object' else 12345
        return e

    def impl(self, c, e):
        return BIN[c.variant](e.other, e.p)

    def spec(self, c, e):
        if type(e.other).__module__ == 'env':
            # the left operand is asked first, with the proxy
            r = c.slot(e.other, dunder(c.variant), e.p)
            if r is not NotImplemented:
                return r
        return checked(c, e, dunder('r' + c.variant),
                       lambda: BIN[c.variant](e.other, e.obj))


@contract(['C01', 'C02'], C + '*', PY + '*')
class pow3:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        e.other = c.obj('operand')
        e.modulus = c.choice('modulus', [None, c.obj('modulus'), 17])
        return e

    def impl(self, c, e):
        return pow(e.p, e.other, e.modulus)

    def spec(self, c, e):
        return checked(c, e, '__pow__',
                       lambda: pow(e.obj, e.other, e.modulus))


@contract(['C01', 'C02'], C + 'proxy_pow', configs=('c',), sym=False)
class pow3right:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        e.where = c.choice('position', ['exponent', 'modulus'])
        return e

    def impl(self, c, e):
        return pow(12345, e.p, 17) if e.where == 'exponent' else \
            pow(12345, 17, e.p)

    def spec(self, c, e):
        if e.where == 'exponent':
            return checked(c, e, '__rpow__', lambda: pow(12345, e.obj, 17))
        return checked(c, e, '__3pow__', lambda: pow(12345, 17, e.obj))


@contract(['C01', 'C02'], C + '*', PY + '*', variants=sorted(INP))
class inplace:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        e.other = a_value(c, e)
        return e

    def impl(self, c, e):
        return INP[c.variant](e.p, e.other)

    def spec(self, c, e):
        ask(c, e, dunder(c.variant))
        r = INP[c.variant](e.obj, e.other)
        return e.p if r is e.obj else protect(c, e, r)


@contract(['C01', 'C02'], C + 'proxy_call', PY + '*')
class call:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        e.args = c.seq('args', lambda c, i, n: a_value(c, e, 'argument'))
        e.kw = {'key': a_value(c, e, 'argument')} if c.flag('keyword') else {}
        return e

    def impl(self, c, e):
        return e.p(*e.args, **e.kw)

    def spec(self, c, e):
        return checked(c, e, '__call__', lambda: e.obj(*e.args, **e.kw))


@contract(['C01', 'C02'], C + 'proxy_getitem', PY + '*')
class getitem:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        e.key = a_value(c, e, 'key')
        return e

    def impl(self, c, e):
        return e.p[e.key]

    def spec(self, c, e):
        return checked(c, e, '__getitem__', lambda: e.obj[e.key])


@contract(['C03'], C + 'proxy_setitem', PY + '*')
class setitem:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        e.key = a_value(c, e, 'key')
        e.value = a_value(c, e, 'value')
        return e

    def impl(self, c, e):
        e.p[e.key] = e.value

    def spec(self, c, e):
        ask(c, e, '__setitem__')
        e.obj[e.key] = e.value
        if not c.is_c:
            protect(c, e, None)


@contract(['C03'], C + 'proxy_setitem', PY + '*')
class delitem:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        e.key = a_value(c, e, 'key')
        return e

    def impl(self, c, e):
        del e.p[e.key]

    def spec(self, c, e):
        ask(c, e, '__delitem__')
        del e.obj[e.key]
        if not c.is_c:
            protect(c, e, None)


@contract(['C01', 'C02', 'C03'], C + 'proxy_igetitem', C + 'proxy_isetitem',
          configs=('c',), sym=False, variants=['get', 'set', 'del'])
class sequence:
    """The integer-index slots, which only C callers reach."""

    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        e.index = c.choice('index', [0, 7, 300])
        e.value = a_value(c, e, 'value')
        return e

    def impl(self, c, e):
        if c.variant == 'get':
            return c.w.capi.PySequence_GetItem(id(e.p), e.index)
        if c.variant == 'set':
            c.w.capi.PySequence_SetItem(id(e.p), e.index, id(e.value))
        else:
            c.w.capi.PySequence_DelItem(id(e.p), e.index)

    def spec(self, c, e):
        if c.variant == 'get':
            return checked(c, e, '__getitem__', lambda: e.obj[e.index])
        if c.variant == 'set':
            ask(c, e, '__setitem__')
            e.obj[e.index] = e.value
        else:
            ask(c, e, '__delitem__')
            del e.obj[e.index]


@contract(['C01', 'C02'], C + 'proxy_contains', PY + '*')
class contains:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        e.key = a_value(c, e, 'item')
        return e

    def impl(self, c, e):
        return e.key in e.p

    def spec(self, c, e):
        ask(c, e, '__contains__')
        r = e.key in e.obj
        if c.is_c:
            return r
        return True if protect(c, e, r) else False


@contract(['C01', 'C02'], C + 'proxy_length', PY + '*')
class length:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        return e

    def impl(self, c, e):
        return len(e.p)

    def spec(self, c, e):
        ask(c, e, '__len__')
        return len(e.obj)


@contract(['C01', 'C02'], C + 'proxy_iter', PY + '*')
class iterate:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        return e

    def impl(self, c, e):
        return type(e.p).__iter__(e.p)

    def spec(self, c, e):
        return checked(c, e, '__iter__', lambda: iter(e.obj))


@contract(['C01', 'C02'], C + 'proxy_iternext', PY + '*')
class step:
    def setup(self, c):
        e = Env()
        without = ('__next__',) if c.is_c and c.flag('no iterator') else ()
        e.obj, e.checker, e.p = a_proxy(
            c, 'p' if not without else 'p (no iterator)', without=without)
        return e

    def impl(self, c, e):
        return next(e.p)

    def spec(self, c, e):
        if c.is_c:
            ask_read(c, e, '__next__')
            try:
                r = next(e.obj)
            except StopIteration:
                raise StopIteration()
            return protect(c, e, r)
        return checked(c, e, '__next__', lambda: e.obj.__next__())


@contract(['C01'], C + '*', PY + '*')
class matmul:
    """No operator of the proxy: the object is not reached at all."""

    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        e.how = c.choice('operator', ['@', '@='])
        e.other = c.choice('operand', [12345, e.obj])
        return e

    def impl(self, c, e):
        if e.how == '@':
            return operator.matmul(e.p, e.other)
        return operator.imatmul(e.p, e.other)

    def spec(self, c, e):
        if e.other is e.obj:
            r = c.slot(e.obj, '__rmatmul__', e.p)
            if r is not NotImplemented:
                return r
        raise TypeError()


NAMES = ['spam', '_wrapped', '_checker', '__class__', '__dict__', '_x', '',
         '__next__', '__reduce__', '__reduce_ex__', '__module__',
         'proxy_object', '__cmp__', '\udc80', '__parent__']
# comparison, hash and truth are not asked for (C04)
UNASKED = ('__cmp__', '__hash__', '__bool__', '__lt__', '__le__', '__eq__',
           '__ne__', '__ge__', '__gt__')


@contract(['C01', 'C02', 'C22'], C + 'proxy_getattro',
          PY + 'ProxyPy.__getattribute__', PY + 'ProxyPy.__getattr__', symtime=240)
class getattribute:
    def setup(self, c):
        e = Env(name=c.str('name', NAMES))
        e.obj, e.checker, e.p = a_proxy(c, 'p', classev=True)
        c.require(c.is_c or e.name not in ('__doc__', '__slots__'))
        return e

    def impl(self, c, e):
        return getattr(e.p, e.name)

    def spec(self, c, e):
        if c.is_c:
            ask_read(c, e, e.name)
            return protect(c, e, getattr(e.obj, e.name))
        try:
            if e.name in ('_wrapped', '_checker'):
                raise AttributeError(e.name)
            if e.name not in UNASKED:
                ask_read(c, e, e.name)
            return protect(c, e, self.value(c, e))
        except AttributeError:
            ask_read(c, e, e.name)
            raise AttributeError(e.name)

    def value(self, c, e):
        try:
            return getattr(e.obj, e.name)
        except AttributeError:
            if e.name not in ('__class__', '__module__', '__reduce__',
                              '__reduce_ex__') and \
                    c.type_defines(type(e.p), e.name):
                # the operation of the proxy itself, which is checked
                return c.own_method(e.p, e.name)
            raise


@contract(['C03', 'C22'], C + 'proxy_setattro', PY + 'ProxyPy.__setattr__')
class setattribute:
    def setup(self, c):
        e = Env(name=c.str('name', NAMES))
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        e.value = a_value(c, e, 'value')
        return e

    def impl(self, c, e):
        setattr(e.p, e.name, e.value)

    def spec(self, c, e):
        if not c.is_c and e.name in ('_wrapped', '_checker'):
            raise AttributeError(e.name)
        ask_write(c, e, e.name)
        setattr(e.obj, e.name, e.value)


@contract(['C03', 'C22'], C + 'proxy_setattro', PY + 'ProxyPy.__delattr__')
class delattribute:
    def setup(self, c):
        e = Env(name=c.str('name', NAMES))
        e.obj, e.checker, e.p = a_proxy(c, 'p')
        return e

    def impl(self, c, e):
        delattr(e.p, e.name)

    def spec(self, c, e):
        if not c.is_c and e.name in ('_wrapped', '_checker'):
            raise AttributeError(e.name)
        ask_write(c, e, e.name)
        delattr(e.obj, e.name)


CMP = {'lt': operator.lt, 'le': operator.le, 'eq': operator.eq,
       'ne': operator.ne, 'gt': operator.gt, 'ge': operator.ge}


@contract(['C04', 'C02'], C + 'proxy_richcompare', PY + '*',
          variants=sorted(CMP))
class compare:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p', eqev=True)
        e.other = c.choice('operand', [
            lambda: c.obj('operand', eqev=True), lambda: 12345,
            lambda: a_proxy(c, 'q', False, eqev=True)[2],
            lambda: e.obj, lambda: e.p])()
        return e

    def impl(self, c, e):
        return CMP[c.variant](e.p, e.other)

    def spec(self, c, e):
        r = CMP[c.variant](e.obj, e.other)
        if r is True or r is False:
            return r
        return protect(c, e, r)


@contract('C04', C + 'proxy_hash', PY + '*')
class hashing:
    def setup(self, c):
        e = Env()
        # (CPython itself leaks a non-integer result of __hash__)
        c.outcomes('op:__hash__', [42, -1] if c.is_c else [42, -1, 'obj'])
        e.obj, e.checker, e.p = a_proxy(c, 'p', hashev=True)
        return e

    def impl(self, c, e):
        return hash(e.p)

    def spec(self, c, e):
        return hash(e.obj)


@contract('C04', C + 'proxy_bool', PY + '*')
class truth:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p', truth='event')
        return e

    def impl(self, c, e):
        return True if e.p else False

    def spec(self, c, e):
        return True if e.obj else False


@contract('C04', C + 'proxy_str', C + 'proxy_repr', C + 'default_repr',
          PY + 'ProxyPy.__str__', PY + 'ProxyPy.__repr__',
          variants=['str', 'repr'])
class text:
    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p', textev=True)
        return e

    def impl(self, c, e):
        return str(e.p) if c.variant == 'str' else repr(e.p)

    def spec(self, c, e):
        refused = False
        try:
            ask(c, e, dunder(c.variant))
        except BaseException as x:
            c.has_exc(x)
            refused = True
        if refused:
            k = type(e.obj)
            return '<security proxied %s.%s instance at 0x%x>' % (
                k.__module__, k.__name__, id(e.obj))
        return str(e.obj) if c.variant == 'str' else repr(e.obj)


@contract('C04', C + 'default_repr', configs=('c',), sym=False,
          variants=['str', 'repr'])
class generic_text:
    """The generic text when reading the class fails or gives odd objects."""

    def setup(self, c):
        e = Env()
        e.obj, e.checker, e.p = a_proxy(c, 'p', textev=True, classev=True)
        c.outcomes('call:check', [], [c.S.EnvError])
        c.outcomes('op:__setitem__', [], [c.S.EnvError])
        c.outcomes('getattr', [
            'obj', 'spam', '\udc80', lambda p, a: c.odd_class],
            [c.S.EnvError, c.S.EnvAttributeError])
        return e

    def impl(self, c, e):
        return str(e.p) if c.variant == 'str' else repr(e.p)

    def spec(self, c, e):
        try:
            ask(c, e, dunder(c.variant))
        except c.S.EnvError:
            pass
        k = e.obj.__class__
        n = k.__name__
        try:
            m = k.__module__
        except Exception:
            return '<security proxied %s instance at 0x%x>' % (n, id(e.obj))
        return '<security proxied %s.%s instance at 0x%x>' % (
            m, n, id(e.obj))
