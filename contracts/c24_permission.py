"""Permissions: declarations, vocabularies and redefinition (C24)."""
from zope.interface import implementer
from zope.interface.interfaces import IComponentLookup
from zope.interface.registry import Components

from vc.dsl import contract, Env, AnyException

PM = 'zope.security.permission:'
ZC = 'zope.security.zcml:'
PUBLIC = 'zope.Public'

IDS = ['zope.View', 'a.Zz', 'zope.Public', 'z.A', 'Zope.Public2']


class Falsy:
    """A permission may be false."""

    def __init__(self, id):
        self.id = id

    def __len__(self):
        return 0


class Here:
    """A context with its own registry."""

    def __init__(self, components):
        self.components = components

    def __conform__(self, iface):
        if iface is IComponentLookup:
            return self.components


def a_permission(c, id):
    return c.choice('permission', [
        lambda: c.S.permission.Permission(id, 'title of ' + id),
        lambda: c.S.permission.Permission('other id'),
        lambda: Falsy(id)])()


def registries(c, e):
    """Any registered permissions, globally and in the context."""
    import zope.component.globalregistry as g
    base = g.base
    base.__init__('base')
    here = Components('here')
    e._here = Here(here)
    e._global, e._local = {}, {}
    for reg, model, ids in ((base, e._global, IDS),
                            (here, e._local, IDS[1:4])):
        for id in ids:
            if c.flag('registered ' + id):
                p = a_permission(c, id)
                model[id] = p
                reg.registerUtility(p, c.S.interfaces.IPermission, name=id)
    where = c.choice('context', ['none', 'omitted', 'local'])
    e._context = e._here if where == 'local' else None
    e._args = () if where == 'omitted' else (e._context,)
    e.known = e._local if where == 'local' else e._global
    # other utilities do not count
    base.registerUtility(Falsy('x'), c.S.I.IBase, name='not.a.permission')


class Cleaned:
    def observe(self, c, e):
        import zope.component.globalregistry as g
        g.base.__init__('base')
        return None


@contract('C24', PM + 'checkPermission', history=False, sym=False,
          bounded='enumerated registrations; C24.any_checkPermission proves it '
          'for all')
class checkPermission(Cleaned):
    def setup(self, c):
        e = Env()
        registries(c, e)
        e.id = c.choice('id', [c.S.CheckerPublic] + IDS + [
            '', 'zope.Viewer', 'ZOPE.View', 'not.a.permission'])
        return e

    def impl(self, c, e):
        return c.S.permission.checkPermission(e._context, e.id)

    def spec(self, c, e):
        if e.id is not c.S.CheckerPublic and e.id not in e.known:
            raise ValueError()


@contract('C24', PM + 'allPermissions', history=False, sym=False,
          bounded='enumerated registrations; C24.any_allPermissions proves it '
          'for all')
class allPermissions(Cleaned):
    def setup(self, c):
        e = Env()
        registries(c, e)
        return e

    def impl(self, c, e):
        return sorted(c.S.permission.allPermissions(*e._args))

    def spec(self, c, e):
        return sorted(id for id in e.known if id != PUBLIC)


@contract('C24', PM + 'PermissionsVocabulary', history=False, sym=False,
          bounded='enumerated registrations; C24.any_PermissionsVocabulary proves it '
          'for all')
class PermissionsVocabulary(Cleaned):
    def setup(self, c):
        e = Env()
        registries(c, e)
        return e

    def impl(self, c, e):
        v = c.S.permission.PermissionsVocabulary(*e._args)
        return sorted(((t.token, t.value) for t in v),
                      key=lambda x: x[0]), len(v), [
            e.known[i] in v for i in sorted(e.known)]

    def spec(self, c, e):
        return sorted(e.known.items()), len(e.known), [
            True for i in e.known]


@contract('C24', PM + 'PermissionIdsVocabulary', history=False, sym=False,
          bounded='enumerated registrations; C24.any_PermissionIdsVocabulary proves it '
          'for all')
class PermissionIdsVocabulary(Cleaned):
    def setup(self, c):
        e = Env()
        registries(c, e)
        return e

    def impl(self, c, e):
        v = c.S.permission.PermissionIdsVocabulary(*e._args)
        return [(t.value, t.token, t.title) for t in v]

    def spec(self, c, e):
        r = [(id, id, id) for id in sorted(e.known) if id != PUBLIC]
        if PUBLIC in e.known:
            r.insert(0, (c.S.CheckerPublic, PUBLIC, 'Public'))
        return r


@contract('C24', PM + 'Permission.__init__', history=False)
class Permission:
    def setup(self, c):
        return Env(args=c.choice('args', [('i',), ('i', 't'),
                                          ('i', 't', 'd')]))

    def impl(self, c, e):
        p = c.S.permission.Permission(*e.args)
        return p.id, p.title, p.description

    def spec(self, c, e):
        return (e.args + ('', ''))[:3] if len(e.args) < 3 else e.args


# --- configuration ---------------------------------------------------------------
class Context:
    def __init__(self):
        self.actions = []
        self.context = self
        self.info = 'info'

    def action(self, discriminator, callable=None, args=(), kw=None, order=0,
               includepath=None, info=None, **more):
        self.actions.append((discriminator, callable, args, kw or {}))


def run(c, context):
    """What the scheduled actions decide."""
    r = []
    for d, f, a, k in context.actions:
        x = c.capture(lambda: f(*a, **k))
        r.append((d, x[0] if x[0] == 'ret' else type(x[1])))
    return r


ID_TEXT = ['zope.View', 'a.Zz', 'zope.Public', ' zope.View ', 'z.A',
           'http://x/y', 'zope.Public2']
NO_ID = ['', 'spam', 'a b.c', '.x']


@contract('C24', ZC + 'Permission.fromUnicode', ZC + 'Permission._validate',
          history=False, variants=['fromUnicode', 'validate'], sym=False,
          bounded='enumerated texts; C24.any_permission_field proves it for '
          'all')
class permission_field(Cleaned):
    def setup(self, c):
        e = Env(mapping=None)
        registries(c, e)
        e.text = c.choice('text', ID_TEXT + NO_ID)
        e._ctx = Context()
        if c.flag('redefinitions'):
            e.mapping = e._ctx.permission_mapping = c.table(
                'mapping', ['zope.View', 'zope.Public'],
                ['z.A', 'zope.Public', '', 'undefined.Id'])
        e._used = c.flag('used before')
        e._twice = c.flag('used twice')
        e._before = c.choice('earlier text', ['zope.View', 'a.Zz', 'z.A',
                                              'zope.Public'])
        return e

    def impl(self, c, e):
        f = c.S.zcml.Permission(title='x')
        if e._used:
            # by another configuration
            f.bind(Context()).validate('zope.View')
            f.bind(Context()).fromUnicode(e._before)
        f = f.bind(e._ctx)
        if e._twice:
            f.fromUnicode(e._before)
        before = list(e._ctx.actions)
        if c.variant == 'validate':
            r = f.validate(e.text)
        else:
            r = f.fromUnicode(e.text)
        del e._ctx.actions[:len(before)]
        return r, run(c, e._ctx)

    def spec(self, c, e):
        id = e.text.strip() if c.variant != 'validate' else e.text
        if e.text in NO_ID or id != id.strip():
            raise AnyException()
        r = []
        if id != PUBLIC:
            r = [(None, 'ret' if id in e._global else ValueError)]
        if c.variant == 'validate':
            return None, r
        return (e.mapping or {}).get(id, id), r


@contract('C24', ZC + 'redefinePermission', history=False, sym=False,
          bounded='two redefinitions; C24.any_redefinePermission proves the '
          'step')
class redefinePermission:
    def setup(self, c):
        e = Env(ctx=Context())
        e.ctx.context = c.choice('inner', [Context, lambda: e.ctx])()
        if c.flag('earlier'):
            e.ctx.context.permission_mapping = c.table(
                'mapping', ['zope.View', 'other.Id'], ['z.A', 'a.Zz'])
        e.pairs = c.seq('pairs', lambda c, i, n: (
            c.choice('from ' + n, ['zope.View', 'zope.Edit', 'zope.Public']),
            c.choice('to ' + n, ['z.A', 'zope.View', 'zope.Public'])), n=2)
        return e

    def impl(self, c, e):
        for a, b in e.pairs:
            c.S.zcml.redefinePermission(e.ctx, a, b)

    def spec(self, c, e):
        x = e.ctx.context
        if e.pairs and not hasattr(x, 'permission_mapping'):
            x.permission_mapping = {}
        for a, b in e.pairs:
            x.permission_mapping[a] = b


@contract('C24', ZC + 'permission', history=False,
          again=False)
class permission_directive(Cleaned):
    def setup(self, c):
        import zope.component.globalregistry as g
        g.base.__init__('base')
        e = Env(id=c.choice('id', ['zope.View', 'zope.Public']),
                args=c.choice('args', [('t',), ('t', 'd'), ('', '')]))
        e._ctx = Context()
        return e

    def impl(self, c, e):
        c.S.zcml.permission(e._ctx, e.id, *e.args)
        r = run(c, e._ctx)
        from zope.component import queryUtility
        p = queryUtility(c.S.interfaces.IPermission, e.id)
        return (p.id, p.title, p.description), list(
            c.S.permission.allPermissions()), len({
                repr(d) for d, x in r if d is not None}) == len(
            [d for d, x in r if d is not None]) > 0

    def spec(self, c, e):
        return (e.id,) + (e.args + ('',))[:2], [
            i for i in [e.id] if i != PUBLIC], True


@contract(['C24', 'C15'], ZC + 'securityPolicy', history=False,
          again=False)
class policy_directive:
    """The declared policy is used once the action has run, not before."""

    def setup(self, c):
        e = Env(policy=c.obj('policy'))
        e._ctx = Context()
        e._was = c.S.management._defaultPolicy \
            if hasattr(c.S.management, '_defaultPolicy') else None
        return e

    def impl(self, c, e):
        before = c.S.management.getSecurityPolicy()
        c.S.zcml.securityPolicy(e._ctx, e.policy)
        same = c.S.management.getSecurityPolicy() is before
        ds = [d for d, f, a, k in e._ctx.actions]
        run(c, e._ctx)
        return same, ds, c.S.management.getSecurityPolicy()

    def spec(self, c, e):
        return True, ['defaultPolicy'], e.policy


# --- the same for any registered permissions (deduction only) ---------------------
class Term:
    """What a vocabulary records of a term."""


def any_registrations(c, e):
    """Any permissions by any names; the component registry is the one of
    the context (an assumed contract of zope.component)."""
    import zope.component
    from zope.schema import vocabulary
    e.known = c.table('permissions', [], [])
    e.context = c.choice('context', [None, c.obj('context', ops=())])
    I = c.S.interfaces.IPermission

    def query(interface, name='', default=None, context=None):
        if interface is not I or context is not e.context:
            c.bounded_only('another registry')
        return e.known.get(name, default)

    def utilities(interface, context=None):
        if interface is not I or context is not e.context:
            c.bounded_only('another registry')
        return e.known.items()

    def term(value, token=None, title=None):
        return ('term', value, token, title)

    def vocabulary_of(terms):
        return ('vocabulary', terms)

    def other(*a, **k):
        c.bounded_only('other queries of the component registry')
    c.assume_contract('zope.component.queryUtility: the permission '
                      'registered by that name in that context, or None',
                      zope.component.queryUtility, query)
    c.assume_contract('zope.component.getUtilitiesFor: the registered '
                      'permissions with their names',
                      zope.component.getUtilitiesFor, utilities)
    c.assume_contract('SimpleTerm, SimpleVocabulary: record their arguments',
                      vocabulary.SimpleTerm, term)
    c.assume_contract('SimpleTerm, SimpleVocabulary: record their arguments',
                      vocabulary.SimpleVocabulary, vocabulary_of)
    for n in ('getUtility', 'getSiteManager', 'getAllUtilitiesRegisteredFor',
              'getGlobalSiteManager', 'queryNextUtility', 'getNextUtility'):
        f = getattr(zope.component, n, None)
        if f is not None:
            c.assume_contract('other queries are not made', f, other)


@contract('C24', PM + 'checkPermission', conc=False)
class any_checkPermission:
    def setup(self, c):
        e = Env(id=c.choice('id', [c.S.CheckerPublic, c.str('id')]))
        any_registrations(c, e)
        return e

    def impl(self, c, e):
        return c.S.permission.checkPermission(e.context, e.id)

    def spec(self, c, e):
        if e.id is c.S.CheckerPublic:
            return None
        if e.known.get(e.id) is None:
            raise ValueError()


@contract('C24', PM + 'allPermissions', conc=False)
class any_allPermissions:
    def setup(self, c):
        e = Env(to=c.obj('user', methods={'gets': dict(result='none',
                                                       exc=())}))
        any_registrations(c, e)
        return e

    def impl(self, c, e):
        for id in c.S.permission.allPermissions(e.context):
            e.to.gets(id)

    def spec(self, c, e):
        for id, permission in e.known.items():
            if id != PUBLIC:
                e.to.gets(id)


@contract('C24', PM + 'PermissionsVocabulary', conc=False)
class any_PermissionsVocabulary:
    def setup(self, c):
        e = Env()
        any_registrations(c, e)
        return e

    def impl(self, c, e):
        return c.S.permission.PermissionsVocabulary(e.context)

    def spec(self, c, e):
        terms = []
        for id, permission in e.known.items():
            terms.append(('term', permission, id, None))
        return ('vocabulary', terms)


@contract('C24', PM + 'PermissionIdsVocabulary', conc=False)
class any_PermissionIdsVocabulary:
    """Sorted by title, the public permission first."""

    def setup(self, c):
        e = Env()
        any_registrations(c, e)
        return e

    def impl(self, c, e):
        return c.S.permission.PermissionIdsVocabulary(e.context)

    def spec(self, c, e):
        import operator
        terms, public = [], False
        for id, permission in e.known.items():
            if id == PUBLIC:
                public = True
            else:
                terms.append(('term', id, id, id))
        terms = sorted(terms, key=operator.attrgetter('title'))
        if public:
            terms.insert(0, ('term', c.S.CheckerPublic, PUBLIC, 'Public'))
        return ('vocabulary', terms)


@contract('C24', ZC + 'redefinePermission', conc=False)
class any_redefinePermission:
    """One redefinition on any table of earlier ones (or none)."""

    def setup(self, c):
        e = Env(ctx=Context())
        e.ctx.context = c.choice('inner', [Context, lambda: e.ctx])()
        if c.flag('earlier'):
            e.ctx.context.permission_mapping = c.table('mapping', [], [])
        e.a, e.b = c.str('from'), c.str('to')
        return e

    def impl(self, c, e):
        c.S.zcml.redefinePermission(e.ctx, e.a, e.b)

    def spec(self, c, e):
        x = e.ctx.context
        if not hasattr(x, 'permission_mapping'):
            x.permission_mapping = {}
        x.permission_mapping[e.a] = e.b


@contract('C24', ZC + 'Permission.fromUnicode', ZC + 'Permission._validate',
          conc=False, variants=['fromUnicode', 'validate'])
class any_permission_field:
    """Any text, any redefinitions.  What is an id, and that a field strips
    and validates its text, is up to zope.schema (assumed)."""

    def setup(self, c):
        from zope.schema import Id
        e = Env(ctx=Context(), text=c.str('text'), id=c.str('stripped'),
                valid=c.flag('the text is an id'), mapping=None)
        if c.flag('redefinitions'):
            e.mapping = e.ctx.permission_mapping = c.table('mapping', [], [])
        e._field = c.S.zcml.Permission(title='x').bind(e.ctx)

        def from_unicode(field, text):
            if text is not e.text:
                c.bounded_only('another text')
            field._validate(e.id)
            return e.id

        def validate(field, value):
            if not e.valid:
                raise ValueError('not an id')
        c.assume_contract('zope.schema.Id.fromUnicode: validates the '
                          'stripped text and returns it', Id.fromUnicode,
                          from_unicode)
        c.assume_contract('zope.schema.Id._validate: raises an exception '
                          'or returns None, depending on the text alone',
                          Id._validate, validate)
        return e

    def impl(self, c, e):
        if c.variant == 'validate':
            return e._field._validate(e.id)
        return e._field.fromUnicode(e.text)

    def spec(self, c, e):
        if not e.valid:
            raise ValueError('not an id')
        if e.id != PUBLIC:
            e.ctx.action(discriminator=None,
                         callable=c.S.permission.checkPermission,
                         args=(None, e.id), order=9999999)
        if c.variant == 'fromUnicode':
            return e.id if e.mapping is None else e.mapping.get(e.id, e.id)
