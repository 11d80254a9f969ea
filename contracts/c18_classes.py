"""Class and module declarations (C18) and their directives (C19)."""
from vc.dsl import contract, Env, AnyException

PC = 'zope.security.protectclass:'
MC = 'zope.security.metaconfigure:'

PUBLIC = 'zope.Public'


# --- classes with any checkers of their own ----------------------------------
def names(c):
    return c.str('name', ['spam', 'eggs', '__call__', ''], False)


def permissions(c):
    return ['zope.View', 'zope.Public', 'zope.Edit', c.S.CheckerPublic,
            'zope.Public ', '', 'Zope.public']


def own_checker(c, e, k, name):
    """Register any name-based checker (or none) for a class or module."""
    reg = c.S.checker._checkers
    if k in reg:
        return
    how = c.choice('checker of ' + name, ['none', 'tables', 'no write table',
                                          'the default'])
    vals = ['zope.View', 'zope.Manage', c.S.CheckerPublic, None]
    if how == 'the default':
        # denies everything, like no declaration at all
        reg[k] = c.S.Checker({}, {})
    elif how == 'no write table':
        reg[k] = c.S.Checker(c.table('gets of ' + name, ['spam', 'a'], vals))
    elif how == 'tables':
        reg[k] = c.S.Checker(c.table('gets of ' + name, ['spam', 'a'], vals),
                             c.table('sets of ' + name, ['spam', 'b'], vals))


def tables(c, k):
    """The model of a checker: its two tables."""
    x = c.S.checker._checkers.get(k)
    if x is None:
        return None
    return dict(x.get_permissions), dict(x.set_permissions)


class Classes:
    """Final state: every class's tables; no two classes share one."""

    def setup(self, c):
        e = Env(T=c.type('T'), U=c.type('U'))
        own_checker(c, e, e.T, 'T')
        own_checker(c, e, e.U, 'U')
        self.more(c, e)
        e._model = {k: tables(c, k) for k in c.S.checker._checkers
                    if isinstance(c.S.checker._checkers[k], c.S.Checker)}
        e._fresh = not [k for k in (e.T, e.U)
                        if k in c.S.checker._checkers]
        return e

    def more(self, c, e):
        pass

    def observe(self, c, e):
        if c.side == 'impl':
            reg = c.S.checker._checkers
            ks = [k for k in reg if isinstance(reg[k], c.S.Checker)]
            m = {k: tables(c, k) for k in ks}
            mine = [k for k in ks if k in (e.T, e.U)]
            ids = [id(t) for k in mine for t in (
                reg[k].get_permissions, reg[k].set_permissions)]
            return m, len(set(ids)) == len(ids)
        return e._model, True


def declare(c, e, k, which, name, permission):
    if permission == PUBLIC:
        permission = c.S.CheckerPublic
    if e._model.get(k) is None:
        e._model[k] = ({}, {})
    e._model[k][which][name] = permission


@contract('C18', PC + 'protectName', PC + 'protectSetAttribute',
          watch=True, history=False, variants=['read', 'write'])
class protect(Classes):
    """(one call or two in a row, on any classes)"""

    def more(self, c, e):
        def call(c, i, n):
            return (c.choice('class ' + n, [e.T, e.U]),
                    c.str('name ' + n, ['spam', 'b', ''], False),
                    c.choice('permission ' + n, permissions(c)))
        # (deduction: one call from any state; a history is such steps)
        e.calls = (call(c, 0, 'call'),) if c.engine == 'sym' else \
            c.seq('calls', call, n=2)

    def impl(self, c, e):
        f = c.S.protectclass.protectName if c.variant == 'read' else \
            c.S.protectclass.protectSetAttribute
        for k, n, p in e.calls:
            f(k, n, p)

    def spec(self, c, e):
        for k, n, p in e.calls:
            declare(c, e, k, 0 if c.variant == 'read' else 1, n, p)


@contract('C18', PC + 'protectLikeUnto', watch=True, history=False, symtime=240)
class like_unto(Classes):
    """Copying, and declarations made afterwards."""

    def more(self, c, e):
        e.like = c.choice('like', [e.U, e.T])
        # (deduction: one step from any state)
        e.after = None if c.engine == 'sym' else c.choice(
            'afterwards', [None, 'T read', 'U read', 'T write', 'U write',
                           'again'])

    def impl(self, c, e):
        m = c.S.protectclass
        m.protectLikeUnto(e.T, e.like)
        if e.after == 'again':
            m.protectName(e.U, 'a', 'zope.New')
            m.protectLikeUnto(e.T, e.U)
        elif e.after:
            k = e.T if e.after[0] == 'T' else e.U
            (m.protectName if e.after[2:] == 'read' else
             m.protectSetAttribute)(k, 'b', 'zope.New')

    def copy(self, e, a, b):
        if e._model.get(b) is None:
            return
        if e._model.get(a) is None:
            e._model[a] = ({}, {})
        (gets, sets), (to_gets, to_sets) = e._model[b], e._model[a]
        for name in gets:
            to_gets[name] = gets[name]
        for name in sets:
            to_sets[name] = sets[name]

    def spec(self, c, e):
        self.copy(e, e.T, e.like)
        if e.after == 'again':
            declare(c, e, e.U, 0, 'a', 'zope.New')
            self.copy(e, e.T, e.U)
        elif e.after:
            declare(c, e, e.T if e.after[0] == 'T' else e.U,
                    0 if e.after[2:] == 'read' else 1, 'b', 'zope.New')


# --- directives -----------------------------------------------------------------
class Context:
    """A configuration context: takes down the actions."""

    def __init__(self, module=None):
        self.actions = []
        self.module = module

    def action(self, discriminator, callable=None, args=(), kw=None, order=0,
               includepath=None, info=None, **more):
        self.actions.append((discriminator, callable, args, kw or {}))


def effect(c, k, do):
    """What one action does to the tables of a class (or module)."""
    reg = c.S.checker._checkers
    was = reg.get(k)
    reg[k] = c.S.Checker({'old': 'zope.Old'}, {'old': 'zope.Old'})
    try:
        do()
        return tables(c, k)
    finally:
        if was is None:
            del reg[k]
        else:
            reg[k] = was


def carried_out(c, context, k):
    """Discriminator and effect of every action that can conflict, with the
    class-copying ones (whose discriminators are unique) by kind only."""
    out, copies, seen_other = [], [], False
    order_ok = True
    uniq = []
    for disc, f, args, kw in context.actions:
        if disc is None:
            continue
        eff = effect(c, k, lambda: f(*args, **kw))
        if disc[0] == 'mimic':
            copies.append((disc[0], disc[1] is k, eff))
            uniq.append(disc)
            order_ok = order_ok and not seen_other
        else:
            seen_other = True
            out.append((disc, eff))
    return out, copies, order_ok, len(set(map(repr, uniq))) == len(uniq) \
        if 0 else all(a is b or a != b for a in uniq for b in uniq)


def declared(k, what, name, permission, c):
    if permission == PUBLIC:
        permission = c.S.CheckerPublic
    gets, sets = {'old': 'zope.Old'}, {'old': 'zope.Old'}
    (gets if what == 'protectName' else sets)[name] = permission
    return ((what, k, name), (gets, sets))


def by_name(actions):
    return sorted(actions, key=lambda a: (a[0][0], a[0][-1]))


ORDER = ['attributes', 'interface', 'set_attributes', 'set_schema']


def some_names(c, what):
    return c.seq(what, lambda c, i, n: ['spam', 'eggs', '__iter__'][i]
                 if c.flag(n) else ['x', 'y', 'z'][i], n=2,
                 kind=c.choice('kind of ' + what, [list, tuple]))


def some_interfaces(c, what, schemas=False):
    I = c.S.I
    opts = [I.ISchema, I.ISubSchema, I.IDerived] if schemas else \
        [I.IBase, I.IDerived, I.IEmpty, I.ISchema]
    return c.choice(what, [()] + [(o,) for o in opts] +
                    [(opts[0], opts[2])] +
                    ([] if schemas else [(None,), (None, opts[1])]))


def read_names(c, e):
    I = c.S.I
    r = list(e.attributes or ())
    for i in e.interface or ():
        if i is not None:
            r += I.NAMES[i]
    return r


def write_names(c, e):
    r = list(e.set_attributes or ())
    for s in e.set_schema or ():
        r += c.S.I.WRITABLE[s]
    return r


@contract('C19', MC + 'ClassDirective', MC + 'ClassDirective.require',
          MC + 'ClassDirective.allow', history=False, watch=True,
          variants=['require', 'allow', 'require twice'],
          sym=lambda v: v == 'allow',
          bounded='enumerated declarations; C19.any_class proves it for all',
          again=False)
class class_directive:
    def setup(self, c):
        I = c.S.I
        from zope.configuration.exceptions import ConfigurationError
        e = Env(cls=c.type('T'), like=None, permission=PUBLIC,
                set_attributes=(), set_schema=())
        e._Error = ConfigurationError
        e._context = Context()
        e._directive = c.S.metaconfigure.ClassDirective(e._context, e.cls)
        e.attributes = some_names(c, 'attributes')
        e.interface = some_interfaces(c, 'interface')
        if c.variant != 'allow':
            e.permission = c.choice('permission', [
                'zope.View', PUBLIC, None, ''])
            e.set_attributes = some_names(c, 'set attributes')
            e.set_schema = some_interfaces(c, 'schema', True)
            if c.flag('like'):
                e.like = c.S.I.Like
                c.S.checker._checkers[e.like] = c.S.Checker(
                    {'like': 'zope.Like'}, {'likeset': 'zope.Like'})
        e.again = c.variant == 'require twice'
        return e

    def impl(self, c, e):
        d = e._directive
        if e.again:
            d.require(e._context, permission='zope.Other',
                      attributes=['spam', 'other'], set_attributes=['x'],
                      set_schema=[c.S.I.ISchema])
        kw = {n: v for n, v in (('attributes', e.attributes),
                                ('interface', e.interface)) if v}
        error = False
        try:
            if c.variant == 'allow':
                d.allow(e._context, **kw)
            else:
                for n, v in (('set_attributes', e.set_attributes),
                             ('set_schema', e.set_schema),
                             ('like_class', e.like),
                             ('permission', e.permission)):
                    if v:
                        kw[n] = v
                d.require(e._context, **kw)
        except e._Error:
            error = True
        actions, copies, order, unique = carried_out(c, e._context, e.cls)
        if error:
            copies = []
        return by_name(actions), copies, order or e.again, unique, error, \
            tuple(d() or ())

    def spec(self, c, e):
        what = e.attributes or e.interface or e.set_attributes or \
            e.set_schema
        actions = []
        if e.again:
            for n in ('spam', 'other'):
                actions.append(declared(e.cls, 'protectName', n,
                                        'zope.Other', c))
            for n in ['x'] + c.S.I.WRITABLE[c.S.I.ISchema]:
                actions.append(declared(e.cls, 'protectSetAttribute', n,
                                        'zope.Other', c))
        copies = []
        if e.like:
            copies = [('mimic', True, (
                {'old': 'zope.Old', 'like': 'zope.Like'},
                {'old': 'zope.Old', 'likeset': 'zope.Like'}))]
        error = not (what or e.like) or bool(what and not e.permission)
        if error:
            return by_name(actions), [], True, True, True, ()
        for n in read_names(c, e):
            actions.append(declared(e.cls, 'protectName', n, e.permission,
                                    c))
        for n in write_names(c, e):
            actions.append(declared(e.cls, 'protectSetAttribute', n,
                                    e.permission, c))
        return by_name(actions), copies, True, True, False, ()


@contract('C19', MC + 'require', MC + 'allow', MC + '_names', history=False,
          watch=True, variants=['require', 'allow'], sym=False,
          bounded='enumerated names; C19.any_module proves it for all',
          again=False)
class module_directive:
    def setup(self, c):
        e = Env(attributes=some_names(c, 'attributes'), permission=PUBLIC)
        if c.flag('repeated'):
            e.attributes = type(e.attributes)(
                list(e.attributes) + ['spam'] + list(e.attributes))
        I = c.S.I
        e.interface = c.choice('interface', [
            (), (I.IBase,), (I.IBase, I.IDerived), (I.IDerived, I.IBase),
            [I.ISubSchema], (I.IEmpty,)])
        e._context = Context(I.module)
        if c.variant == 'require':
            e.permission = c.choice('permission', ['zope.View', PUBLIC])
        e.how = c.choice('arguments', ['all', 'given'])
        return e

    def impl(self, c, e):
        kw = {n: v for n, v in (('attributes', e.attributes),
                                ('interface', e.interface))
              if v or e.how == 'all'}
        m = c.S.metaconfigure
        if c.variant == 'allow':
            m.allow(e._context, **kw)
        else:
            m.require(e._context, e.permission, **kw)
        return by_name(carried_out(c, e._context, c.S.I.module)[0])

    def spec(self, c, e):
        seen = set(e.attributes)
        for i in e.interface:
            seen.update(c.S.I.NAMES[i])
        uri = 'http://namespaces.zope.org/zope:module'
        m = c.S.I.module
        return by_name([((uri, m, n), declared(
            m, 'protectName', n, e.permission, c)[1]) for n in seen])


ODD = ['_private', '__odd__', 'X', 'a.b', 'readonly', 'x' * 70, 'x\u20ac']


@contract('C19', MC + 'ClassDirective', MC + 'require', MC + 'allow',
          MC + '_names', history=False, sym=False,
          variants=['attributes', 'interface', 'set_attributes', 'set_schema',
                    'module attributes', 'module interface'],
          bounded='two odd names; any_class and any_module have all names',
          again=False)
class odd_names:
    def setup(self, c):
        from zope.interface import Interface
        from zope.interface.interface import InterfaceClass
        from zope.schema import TextLine
        e = Env(cls=c.type('T'), names=[c.str('name', ODD)])
        if c.flag('another'):
            e.names.append(c.str('name', ODD))
        where = c.variant.split()[-1]
        e._what = e.names
        if where in ('interface', 'set_schema'):
            e._what = [InterfaceClass('IOdd', (Interface,), {
                n: TextLine() for n in e.names}, __module__='odd')]
        e.where = where
        e._context = Context(c.S.I.module)
        return e

    def impl(self, c, e):
        m = c.S.metaconfigure
        kw = {e.where: e._what, 'permission': 'zope.View'}
        if c.variant != e.where:
            m.require(e._context, **kw)
            k = c.S.I.module
        else:
            m.ClassDirective(e._context, e.cls).require(e._context, **kw)
            k = e.cls
        return by_name(carried_out(c, e._context, k)[0])

    def spec(self, c, e):
        if c.variant != e.where:
            k = c.S.I.module
            return by_name([
                (('http://namespaces.zope.org/zope:module', k, n), declared(
                    k, 'protectName', n, 'zope.View', c)[1])
                for n in set(e.names)])
        names = e.names if e._what is e.names else set(e.names)
        return by_name([declared(
            e.cls, 'protectSetAttribute' if 'set' in e.where else
            'protectName', n, 'zope.View', c) for n in names])


@contract(['C19', 'C18'], MC + 'protectModule', watch=True, history=False)
class protect_module(Classes):
    """(running the actions of modules, one after the other)"""

    def setup(self, c):
        self.c = c
        e = Env(T=c.S.I.module, U=c.S.I.module2)
        own_checker(c, e, e.T, 'T')
        own_checker(c, e, e.U, 'U')
        # the types of modules never count
        self.more(c, e)
        reg = c.S.checker._checkers
        e._model = {k: tables(c, k) for k in reg
                    if isinstance(reg[k], c.S.Checker)}
        return e

    def more(self, c, e):
        def call(c, i, n):
            return (c.choice('module ' + n, [e.T, e.U]),
                    c.str('name ' + n, ['spam', 'b', ''], False),
                    c.choice('permission ' + n, permissions(c)))
        # (deduction: one call from any state; a history is such steps)
        e.calls = (call(c, 0, 'call'),) if c.engine == 'sym' else \
            c.seq('calls', call, n=2)

    def impl(self, c, e):
        for k, n, p in e.calls:
            c.S.metaconfigure.protectModule(k, n, p)

    def spec(self, c, e):
        for k, n, p in e.calls:
            declare(c, e, k, 0, n, p)


# --- the directives, for any names, interfaces and schemas (deduction only) ----
class Recorder:
    """A configuration context: what each action does, in its order."""
    _vc_skip = True

    def __init__(self, c, module=None):
        self.c = c
        self.sink = c.obj('configuration', methods={
            'action': dict(result='none', exc=())}, ops=())
        self.module = module

    def action(self, discriminator, callable=None, args=(), kw=None, order=0,
               includepath=None, info=None, **more):
        if discriminator is None:
            return
        S = self.c.S
        what = {S.protectclass.protectName: 'protectName',
                S.protectclass.protectSetAttribute: 'protectSetAttribute',
                S.protectclass.protectLikeUnto: 'protectLikeUnto',
                S.metaconfigure.protectModule: 'protectModule'}.get(callable)
        if what is None or kw or type(discriminator) is not tuple or \
                len(discriminator) != 3:
            self.c.bounded_only('an action of another form')
        if discriminator[0] == 'mimic' and type(discriminator[2]) is object:
            discriminator = discriminator[:2] + ('unique',)
        self.sink.action(what, discriminator, args)

    def done(self, what, discriminator, *args):
        self.sink.action(what, discriminator, args)


def any_names(c, what):
    return c.seq(what, lambda c, i, n: c.str(n))


def any_interface(c, n):
    """An interface: names and descriptions, all of them or its own."""
    names = c.seq('names of ' + n, lambda c, i, m: (
        c.str('name ' + m), c.obj('description ' + m, ops=())), kind=list)
    own = c.seq('own names of ' + n, lambda c, i, m: (
        c.str('name ' + m), c.obj('description ' + m, ops=())), kind=list)
    keys = c.seq('names of ' + n, lambda c, i, m: c.str('name ' + m),
                 kind=list)
    return c.obj(n, methods={
        'namesAndDescriptions': lambda all=False: names if all else own,
        '__iter__': lambda: keys,
        'getName': lambda: 'IName'},
        fields={'__module__': 'module', '__vc_all__': names,
                '__vc_keys__': keys})


def any_schema(c, n):
    """A schema: names, with fields that may be read-only, and others."""
    def key(c, i, m):
        f = c.obj('field ' + m, fields={'readonly': c.flag('readonly ' + m)},
                  ops=())
        return c.str('name ' + m), f
    items = c.seq('fields of ' + n, key, kind=list)
    return c.obj(n, methods={
        '__iter__': lambda: c.firsts(items),
        '__getitem__': lambda name: c.lookup(items, name),
        'getName': lambda: 'ISchema'},
        fields={'__module__': 'module', '__vc_items__': items})


@contract('C19', MC + 'ClassDirective', MC + 'ClassDirective.require',
          MC + 'ClassDirective.allow', history=False, watch=True, conc=False,
          variants=['names', 'interfaces', 'written', 'nothing', 'allow'])
class any_class:
    """For any number of names, interfaces and schemas of any size."""

    def setup(self, c):
        from zope.configuration.exceptions import ConfigurationError
        e = Env(cls=c.type('T'), like=None, attributes=(), interface=(),
                set_attributes=(), set_schema=(), permission=PUBLIC)
        e._Error = ConfigurationError
        e._context = Recorder(c)
        e._directive = c.S.metaconfigure.ClassDirective(e._context, e.cls)
        if c.variant in ('names', 'allow'):
            e.attributes = any_names(c, 'attributes')
        if c.variant in ('interfaces', 'allow'):
            e.interface = c.seq('interface', lambda c, i, n:
                                any_interface(c, n))
        if c.variant == 'written':
            e.set_attributes = any_names(c, 'set attributes')
            e.set_schema = c.seq('schema', lambda c, i, n: any_schema(c, n))
        if c.variant != 'allow':
            e.permission = c.str('permission')
            if c.flag('like'):
                e.like = c.type('Like')
        return e

    def impl(self, c, e):
        if c.variant == 'allow':
            e._directive.allow(e._context, attributes=e.attributes,
                               interface=e.interface)
        else:
            e._directive.require(
                e._context, permission=e.permission, like_class=e.like,
                attributes=e.attributes, interface=e.interface,
                set_attributes=e.set_attributes, set_schema=e.set_schema)

    def spec(self, c, e):
        r = e._context.done
        if e.like:
            r('protectLikeUnto', ('mimic', e.cls, 'unique'), e.cls, e.like)
        if not (e.interface or e.attributes or e.set_attributes or
                e.set_schema):
            if e.like:
                return
            raise e._Error()
        if not e.permission:
            raise e._Error()
        for i in e.interface:
            if i:
                for name, d in sorted(i.__vc_all__):
                    r('protectName', ('protectName', e.cls, name), e.cls,
                      name, e.permission)
        for name in e.attributes:
            r('protectName', ('protectName', e.cls, name), e.cls, name,
              e.permission)
        for name in e.set_attributes:
            r('protectSetAttribute', ('protectSetAttribute', e.cls, name),
              e.cls, name, e.permission)
        from zope.schema.interfaces import IField
        for s in e.set_schema:
            for name in sorted(c.firsts(s.__vc_items__)):
                field = c.lookup(s.__vc_items__, name)
                if IField.providedBy(field) and not field.readonly:
                    r('protectSetAttribute',
                      ('protectSetAttribute', e.cls, name), e.cls, name,
                      e.permission)


@contract('C19', MC + 'require', MC + 'allow', MC + '_names', history=False,
          watch=True, conc=False, variants=['require', 'allow'])
class any_module:
    def setup(self, c):
        e = Env(attributes=any_names(c, 'attributes'), permission=PUBLIC,
                interface=c.seq('interface', lambda c, i, n:
                                any_interface(c, n)))
        e._context = Recorder(c, c.S.I.module)
        if c.variant == 'require':
            e.permission = c.str('permission')
        return e

    def impl(self, c, e):
        m = c.S.metaconfigure
        if c.variant == 'allow':
            m.allow(e._context, e.attributes, e.interface)
        else:
            m.require(e._context, e.permission, e.attributes, e.interface)

    def declare(self, c, e, seen, name):
        """Every name once."""
        if name in seen:
            return
        seen[name] = 1
        m = c.S.I.module
        e._context.done('protectModule', (
            'http://namespaces.zope.org/zope:module', m, name), m, name,
            e.permission)

    def spec(self, c, e):
        seen = {}
        for name in e.attributes:
            self.declare(c, e, seen, name)
        for i in e.interface:
            for name in i.__vc_keys__:
                self.declare(c, e, seen, name)
