"""Contracts.

A contract is a class decorated with ``@contract(pid, functions...)`` that has

    setup(c)     -> Env: the inputs (arbitrary within their declared types)
    impl(c, e)   -> runs the real function on them
    spec(c, e)   -> the same program written from the property statement only

``impl`` and ``spec`` start from equal states.  The obligations are: the same
sequence of operations on the environment (with the same operands), the same
outcome, and the same final state of everything reachable from ``e`` plus
what ``observe`` returns.  The environment (proxied objects, checkers,
interactions, interfaces, ...) may answer every operation with any value or
exception.

The symbolic engine (vc.explore) proves the obligations for all inputs; the
concrete engine (vc.conc) runs the same contract natively on the unmodified
modules and on the C extension, to replay counterexamples and to stand in
(with its bounds) where the proof does not apply.
"""

REGISTRY = {}


class Env:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class AnyException(Exception):
    """Raised by a spec: the implementation must raise something."""


ALL = ('py', 'c')


def contract(pid, *functions, configs=ALL, sym=True, conc=True, watch=False,
             history=True, cap=None, bounded=None, refs=True, variants=None,
             symtime=60, again=True):
    def deco(cls):
        pids = [pid] if isinstance(pid, str) else list(pid)
        cls.pids = pids
        cls.pid = pids[0]
        cls.cname = cls.__name__
        cls.functions = functions
        cls.configs = configs
        cls.sym = sym
        cls.conc = conc
        cls.watch = watch
        cls.history = history
        cls.again = again
        cls.cap = cap
        cls.bounded = bounded
        cls.symtime = symtime
        cls.refs = refs
        cls.module = cls.__module__
        for d in ('observe', 'final'):
            if not hasattr(cls, d):
                setattr(cls, d, None)
        vs = variants or [None]
        for v in vs:
            if v is None:
                K = cls
                K.variant = None
                K.key = '%s.%s' % (pids[0], cls.__name__)
            else:
                K = type(cls.__name__, (cls,), {})
                K.__module__ = cls.__module__
                K.variant = v
                K.cname = '%s[%s]' % (cls.__name__, v if isinstance(v, str)
                                      else ','.join(map(str, v)))
                K.key = '%s.%s' % (pids[0], K.cname)
                if callable(sym):
                    K.sym = sym(v)
                if callable(functions and functions[0]):
                    K.functions = functions[0](v)
            assert K.key not in REGISTRY, K.key
            REGISTRY[K.key] = K
        return cls
    return deco
