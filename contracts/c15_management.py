"""Interactions (C15), permission checks (C16), policies (C17),
the testing helper (C25)."""
import threading

from vc.dsl import contract, Env, AnyException

MG = 'zope.security.management:'
SP = 'zope.security.simplepolicies:'
TS = 'zope.security.testing:'


# --- C15 ---------------------------------------------------------------------
class Ghost:
    """The interaction state the property speaks about."""

    def __init__(self, current=None, saved=None, policy=None):
        self.current = current
        self.saved = saved
        self.policy = policy


def giving(x):
    def policy(*participations):
        return x
    return policy


def begin(c, of=''):
    """Any reachable state of this thread (only once in a history)."""
    def make():
        m = c.S.management
        c.S.thread_local.__dict__.clear()
        g = Ghost()
        g.policy = c.obj('policy' + of, ops=('__call__',), fixed=True)
        c.outcomes('call', ['obj'])
        if c.flag('saved interaction' + of):
            g.saved = c.obj('saved interaction' + of, fixed=True)
            m.setSecurityPolicy(giving(g.saved))
            m.newInteraction()
            m.endInteraction()
        if c.flag('current interaction' + of):
            g.current = c.obj('current interaction' + of, fixed=True)
            c.truthy('current' + of, g.current)
            m.setSecurityPolicy(giving(g.current))
            m.newInteraction()
        m.setSecurityPolicy(g.policy)
        return g
    return c.ghost('state' + of, make)


def leave(c):
    """Go to a thread in which nothing happened so far.  (What belongs to
    one alone: the attributes of the objects of class threading.local.)"""
    left = []
    for x in c.S.thread_locals:
        left.append((x, dict(x.__dict__)))
        x.__dict__.clear()
    return left


def enter(c, left):
    leave(c)
    for x, d in left:
        x.__dict__.update(d)


@contract('C15', MG + 'newInteraction', MG + 'endInteraction',
          MG + 'restoreInteraction', MG + 'queryInteraction',
          MG + 'getInteraction', MG + 'setSecurityPolicy',
          MG + 'getSecurityPolicy',
          variants=['new', 'end', 'restore', 'query', 'get', 'policy',
                    'any'])
class lifecycle:
    def setup(self, c):
        e = Env(_ghost=begin(c))
        e.op = c.variant if c.variant != 'any' else c.choice('operation', [
            'new', 'end', 'restore', 'query', 'get', 'policy'])
        e.args = c.seq('participations', lambda c, i, n: c.obj(n)) \
            if e.op == 'new' else ()
        e.policy = c.obj('new policy', ops=('__call__',)) \
            if e.op == 'policy' else None
        return e

    def impl(self, c, e):
        m = c.S.management
        try:
            if e.op == 'new':
                r = m.newInteraction(*e.args)
            elif e.op == 'end':
                r = m.endInteraction()
            elif e.op == 'restore':
                r = m.restoreInteraction()
            elif e.op == 'query':
                r = m.queryInteraction()
            elif e.op == 'get':
                r = m.getInteraction()
            else:
                r = m.setSecurityPolicy(e.policy)
        finally:
            e._seen = (m.queryInteraction(), c.capture(m.getInteraction),
                       m.getSecurityPolicy())
        return r

    @staticmethod
    def got(c, current):
        """What asking for the current interaction gives."""
        return ('ret', current) if current is not None else \
            ('exc', c.S.NoInteraction())

    def spec(self, c, e):
        g = e._ghost
        try:
            if e.op == 'new':
                if g.current is not None:
                    raise c.S.management.ExistingInteraction()
                g.current = g.policy(*e.args)
                # (a policy makes interactions; None is none)
                c.require(g.current is not None)
            elif e.op == 'end':
                g.current, g.saved = None, g.current
            elif e.op == 'restore':
                g.current = g.saved
            elif e.op == 'query':
                return g.current
            elif e.op == 'get':
                if g.current is None:
                    raise c.S.NoInteraction()
                return g.current
            else:
                old, g.policy = g.policy, e.policy
                return old
        finally:
            e._seen = g.current, self.got(c, g.current), g.policy

    def observe(self, c, e):
        return e._seen


@contract('C15', MG + 'restoreInteraction', MG + 'endInteraction')
class saved(lifecycle):
    """After any operation, what restoring makes current."""

    variant = 'any'

    def setup(self, c):
        e = Env(_ghost=begin(c))
        e.op = c.choice('operation', ['new', 'end', 'restore', 'query'])
        e.args = ()
        e.policy = None
        return e

    def impl(self, c, e):
        try:
            lifecycle.impl(self, c, e)
        finally:
            m = c.S.management
            m.restoreInteraction()
            e._seen = m.queryInteraction(), c.capture(m.getInteraction)

    def spec(self, c, e):
        g = e._ghost
        try:
            lifecycle.spec(self, c, e)
        finally:
            g.current = g.saved
            e._seen = g.current, self.got(c, g.current)


@contract('C15', MG + '*', conc=False,
          variants=['new', 'end', 'restore', 'query', 'get', 'policy'])
class separate(lifecycle):
    """An operation of a thread in any state, another being in any state:
    the one is as if alone, the other is as it was."""

    @staticmethod
    def brief(r):
        return r if r[0] == 'ret' else (r[0], type(r[1]))

    def setup(self, c):
        other = begin(c, ' of another')
        e = Env(_other=other, _left=c.ghost('left', lambda: leave(c)))
        e._mine = lifecycle.setup(self, c)
        return e

    def impl(self, c, e):
        m = c.S.management
        r = self.brief(c.capture(lambda: lifecycle.impl(self, c, e._mine)))
        left = leave(c)
        enter(c, e._left)
        seen = [m.queryInteraction(), c.capture(m.getInteraction)]
        m.restoreInteraction()
        seen.append(m.queryInteraction())
        enter(c, left)
        return r, e._mine._seen, m.queryInteraction(), seen

    def spec(self, c, e):
        r = self.brief(c.capture(lambda: lifecycle.spec(self, c, e._mine)))
        g = e._other
        return r, e._mine._seen, e._mine._ghost.current, [
            g.current, self.got(c, g.current), g.saved]

    def observe(self, c, e):
        return None


@contract('C15', MG + '*', sym=False,
          bounded='up to 3 operations of one other thread (C15.separate has '
          'any state of any two)')
class threads:
    """Another thread neither sees nor affects this thread's interaction."""

    def setup(self, c):
        e = Env(_ghost=begin(c))
        e.ops = [c.choice('operation', ['new', 'end', 'restore', 'query',
                                        'get'])
                 for i in range(c.choice('operations', [1, 2, 3]))]
        return e

    def impl(self, c, e):
        m = c.S.management
        out = []

        def one(op):
            if op == 'new':
                return m.newInteraction()
            if op == 'end':
                return m.endInteraction()
            if op == 'restore':
                return m.restoreInteraction()
            if op == 'query':
                return m.queryInteraction()
            return m.getInteraction()

        def body():
            for op in e.ops:
                out.append(c.capture(lambda: one(op)))
                out.append(m.queryInteraction())
        before = m.queryInteraction()
        t = threading.Thread(target=body)
        t.start()
        t.join()
        return out, before, m.queryInteraction()

    def spec(self, c, e):
        g = e._ghost
        t = Ghost()
        out = []

        def one(op):
            if op == 'new':
                if t.current is not None:
                    raise c.S.management.ExistingInteraction()
                t.current = g.policy()
            elif op == 'end':
                t.current, t.saved = None, t.current
            elif op == 'restore':
                t.current = t.saved
            elif op == 'query':
                return t.current
            elif t.current is None:
                raise c.S.NoInteraction()
            else:
                return t.current
        for op in e.ops:
            out.append(c.capture(lambda: one(op)))
            out.append(t.current)
        return out, g.current, g.current


# --- C16 ---------------------------------------------------------------------
@contract('C16', MG + 'checkPermission')
class checkPermission:
    def setup(self, c):
        c.S.thread_local.__dict__.clear()
        m = {'checkPermission': dict(results=[True, False, None, 'obj'])}
        e = Env(obj=c.obj('object'))
        e.permission = c.choice('permission', [
            c.S.CheckerPublic, None, c.obj('perm', ops=(), eqev=True),
            'zope.View', '', 'zope.Public'])
        e.current = None
        current = c.choice('current', ['an interaction', 'absent', 'None'])
        e.none = current == 'None'
        if e.none:
            # (a policy made it)
            c.S.thread_local.interaction = None
        if current == 'an interaction':
            e.current = c.truthy('current', c.obj(
                'current interaction', methods=m))
            c.S.thread_local.interaction = e.current
        given = c.obj('given interaction', methods=m)
        e.args = c.choice('interaction', [(), (None,), (given,)])
        if e.args and e.args[0] is not None:
            c.truthy('given', given)
        return e

    def impl(self, c, e):
        return c.S.management.checkPermission(e.permission, e.obj, *e.args)

    def spec(self, c, e):
        if e.permission is c.S.CheckerPublic or e.permission is None:
            return True
        inter = e.args[0] if e.args else None
        if inter is None:
            inter = e.current
        if inter is None and e.none:
            raise AnyException()
        if inter is None:
            raise c.S.NoInteraction()
        return inter.checkPermission(e.permission, e.obj)


# --- C17 ---------------------------------------------------------------------
class Participation:
    """Has a principal, and belongs to at most one interaction."""

    def __init__(self, principal, interaction=None):
        self.principal = principal
        self.interaction = interaction

    def __repr__(self):
        return '<participation>'


class Equal(Participation):
    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class Anyone:
    """A principal that claims to be every other."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1


ANYONE = Anyone()


def a_participation(c, name, cls=Participation):
    who = c.choice('principal of ' + name, [
        c.S.management.system_user, c.obj('principal', eqev=False), None,
        ANYONE])
    return cls(who)


def a_policy(c):
    return c.choice('policy', [c.S.simplepolicies.ParanoidSecurityPolicy,
                               c.S.simplepolicies.PermissiveSecurityPolicy])


def members(c, e):
    cls = Equal if c.flag('equal participations') else Participation
    return c.seq('members', lambda c, i, n: a_participation(c, n, cls), n=3,
                 kind=list)


@contract('C17', SP + 'ParanoidSecurityPolicy.checkPermission',
          SP + 'PermissiveSecurityPolicy.checkPermission')
class policy_check:
    def setup(self, c):
        e = Env(obj=c.obj('object'))
        e.members = members(c, e)
        e.cls = a_policy(c)
        e.policy = e.cls()
        e.policy.participations = e.members
        e.permission = c.choice('permission', [
            c.S.CheckerPublic, None, c.obj('perm', ops=(), eqev=True),
            'zope.View'])
        return e

    def impl(self, c, e):
        return e.policy.checkPermission(e.permission, e.obj)

    def spec(self, c, e):
        if e.cls is c.S.simplepolicies.PermissiveSecurityPolicy:
            return True
        return e.permission is c.S.CheckerPublic or not [
            p.principal for p in e.members
            if p.principal is not c.S.management.system_user]


def a_member(c, i, n):
    """Any participation: its attributes are its own business."""
    return c.obj('member ' + n, eqev=True)


@contract('C17', SP + 'ParanoidSecurityPolicy.__init__',
          SP + 'ParanoidSecurityPolicy.add', conc=False)
class any_policy_init:
    """Any number of participations, each of any kind."""

    def setup(self, c):
        cls = a_policy(c)
        return Env(policy=cls.__new__(cls), members=c.seq(
            'members', a_member))

    def impl(self, c, e):
        return e.policy.__init__(*e.members)

    def spec(self, c, e):
        e.policy.participations = []
        for p in e.members:
            if p.interaction is not None:
                raise ValueError()
            p.interaction = e.policy
            e.policy.participations.append(p)


@contract('C17', SP + 'ParanoidSecurityPolicy.add', conc=False)
class any_policy_add:
    """Any number of participations before it."""

    def setup(self, c):
        e = Env(members=c.seq('members', a_member, kind=list))
        e.part = a_member(c, 0, 'new')
        e.policy = a_policy(c)()
        e.policy.participations = e.members
        return e

    def impl(self, c, e):
        return e.policy.add(e.part)

    def spec(self, c, e):
        if e.part.interaction is not None:
            raise ValueError()
        e.part.interaction = e.policy
        e.policy.participations.append(e.part)


@contract('C17', SP + 'ParanoidSecurityPolicy.remove', conc=False)
class any_policy_remove:
    """Any number of others before and after it."""

    def setup(self, c):
        cls = a_policy(c)
        e = Env(policy=cls(), part=Participation(None))

        def other(c, i, n):
            x = a_member(c, i, n)
            c.require(x is not e.part)
            return x
        e.before = c.seq('before', other, kind=list)
        e.after = c.seq('after', other, kind=list)
        e.here = c.flag('in the list')
        # (a participation that refers to a policy which lost it is none)
        e.part.interaction = c.choice('of', [e.policy, None, cls()])
        e.policy.participations = e.before + (
            [e.part] if e.here else []) + e.after
        return e

    def impl(self, c, e):
        return e.policy.remove(e.part)

    def spec(self, c, e):
        if e.part.interaction is not e.policy or not e.here:
            raise ValueError()
        e.policy.participations[:] = e.before + e.after
        e.part.interaction = None


@contract('C17', SP + 'ParanoidSecurityPolicy.__init__',
          SP + 'ParanoidSecurityPolicy.add', sym=False,
          bounded='up to 3 participations (proved for any number by '
          'C17.any_policy_init)',
          again=False)
class policy_init:
    def setup(self, c):
        e = Env(cls=a_policy(c), members=members(c, None))
        other = c.S.simplepolicies.ParanoidSecurityPolicy()
        if e.members:
            k = c.choice('members are', ['free', 'one taken', 'repeated'])
            if k == 'one taken':
                other.add(e.members[-1])
            elif k == 'repeated':
                e.members.append(e.members[0])
        e.taken = [p.interaction is not None for p in e.members]
        return e

    def impl(self, c, e):
        try:
            i = e.cls(*e.members)
            return (type(i) is e.cls, list(i.participations),
                    [p.interaction is i for p in e.members])
        finally:
            for p in e.members:
                p.interaction = None

    def spec(self, c, e):
        if any(e.taken) or any(p is q for i, p in enumerate(e.members)
                               for q in e.members[:i]):
            for p in e.members:
                # (the ones before the failure refer to the failed one)
                p.interaction = None
            raise ValueError()
        for p in e.members:
            p.interaction = None
        return True, e.members[:], [True] * len(e.members)


@contract('C17', SP + 'ParanoidSecurityPolicy.add',
          SP + 'ParanoidSecurityPolicy.remove', variants=['add', 'remove'],
          sym=False, bounded='up to 3 participations (proved for any number '
          'by C17.any_policy_add and C17.any_policy_remove)',
          again=False)
class policy_change:
    def setup(self, c):
        e = Env(members=members(c, None), cls=a_policy(c))
        e._policy = e.cls(*e.members)
        e._other = c.S.simplepolicies.ParanoidSecurityPolicy()
        k = c.choice('which', ['member', 'free', 'of another'])
        c.require(e.members or k != 'member')
        if k == 'member':
            e.part = c.choice('member', e.members)
        else:
            e.part = a_participation(c, 'new', Equal if c.flag('equal')
                                     else Participation)
            if k == 'of another':
                e._other.add(e.part)
        e.kind = k
        return e

    def impl(self, c, e):
        try:
            return getattr(e._policy, c.variant)(e.part)
        finally:
            e._list = list(e._policy.participations)
            e._others = list(e._other.participations)
            e._refs = [self.who(e, p.interaction)
                       for p in e.members + [e.part]]

    def who(self, e, x):
        return 'this' if x is e._policy else 'other' if x is e._other \
            else 'none' if x is None else 'odd'

    def spec(self, c, e):
        e._list = list(e.members)
        e._others = [e.part] if e.kind == 'of another' else []
        refs = {id(p): 'this' for p in e.members}
        if e.kind != 'member':
            refs[id(e.part)] = 'other' if e._others else 'none'
        try:
            if c.variant == 'add':
                if e.kind != 'free':
                    raise ValueError()
                e._list.append(e.part)
                refs[id(e.part)] = 'this'
            else:
                if e.kind != 'member':
                    raise ValueError()
                e._list = [p for p in e._list if p is not e.part]
                refs[id(e.part)] = 'none'
        finally:
            e._refs = [refs[id(p)] for p in e.members + [e.part]]
            for p in e.members + [e.part]:
                p.interaction = None

    def observe(self, c, e):
        r = e._list, e._others, e._refs
        for p in e.members + [e.part]:
            p.interaction = None
        del e._policy.participations[:], e._other.participations[:]
        return r


# --- C25 ---------------------------------------------------------------------
def running(c):
    """Is an interaction active?"""
    c.S.thread_local.__dict__.clear()
    e = Env(current=None)
    m = c.S.management
    if c.flag('saved interaction'):
        m.setSecurityPolicy(giving(c.obj('saved interaction')))
        m.newInteraction()
        m.endInteraction()
    if c.flag('active interaction'):
        e.current = c.truthy('active', c.obj('active interaction'))
        m.setSecurityPolicy(giving(e.current))
        m.newInteraction()
    m.setSecurityPolicy(c.choice('policy', [
        c.S.simplepolicies.ParanoidSecurityPolicy,
        c.S.simplepolicies.PermissiveSecurityPolicy]))
    e.id = c.choice('id', ['bob', 'zope.manager', ''])
    e.kw = c.choice('more', [{}, {'title': 'Bob'}, {'description': 'd'}, {
        'groups': ['g']}])
    return e


class BodyError(BaseException):
    pass


@contract('C25', TS + 'interaction')
class interaction:
    def setup(self, c):
        e = running(c)
        e.body = c.choice('body', ['passes', 'fails', 'nested',
                                   'nested fails', 'interrupted'])
        return e

    def impl(self, c, e):
        m = c.S.management
        e._log = log = []

        def note():
            q = m.queryInteraction()
            log.append('given' if q is e.current and q is not None else
                       None if q is None else
                       [type(q), [(p.principal.id, p.interaction is q)
                                  for p in q.participations]])

        def body(nested):
            note()
            if nested:
                run(e.id + '2', False)
                note()
            elif 'fails' in e.body:
                raise KeyError(5)
            elif e.body == 'interrupted':
                raise BodyError()

        def run(id, nested):
            with c.S.testing.interaction(id, **e.kw) as p:
                log.append(p if p is None else (
                    p.id, p.title, p.description,
                    getattr(p, 'groups', None)))
                body(nested)
        try:
            run(e.id, e.body.startswith('nested'))
        finally:
            note()

    def spec(self, c, e):
        e._log = log = []
        mine = [c.S.management.getSecurityPolicy(), [(e.id, True)]]
        state = 'given' if e.current is not None else None
        try:
            inside = state or mine
            log.append(None if state else (
                e.id, e.kw.get('title') or e.id,
                e.kw.get('description', ''), e.kw.get('groups')))
            log.append(inside)
            if e.body.startswith('nested'):
                log.append(None)
                log.append(inside)
                if 'fails' in e.body:
                    raise KeyError(5)
                log.append(inside)
            elif 'fails' in e.body:
                raise KeyError(5)
            elif e.body == 'interrupted':
                raise BodyError()
        finally:
            log.append(state)

    def observe(self, c, e):
        return e._log


@contract('C25', TS + 'create_interaction', TS + 'Principal.__init__',
          TS + 'Participation.__init__',
          again=False)
class create_interaction:
    def setup(self, c):
        return running(c)

    def impl(self, c, e):
        m = c.S.management
        try:
            p = c.S.testing.create_interaction(e.id, **e.kw)
        finally:
            e._q = q = m.queryInteraction()
        e._q = None
        return (p.id, p.title, p.description, getattr(p, 'groups', None),
                type(q), len(q.participations),
                q.participations[0].principal is p,
                q.participations[0].interaction is q)

    def spec(self, c, e):
        if e.current is not None:
            e._q = e.current
            raise c.S.management.ExistingInteraction()
        e._q = None
        return (e.id, e.kw.get('title') or e.id, e.kw.get('description', ''),
                e.kw.get('groups'), c.S.management.getSecurityPolicy(), 1,
                True, True)

    def observe(self, c, e):
        return e._q
