"""Abstract values and abstract states of the analysis.

The concrete Python values a program can hold are abstracted to:
  Const   constant-propagation element (None, booleans, numbers, strings, ...)
  Sym     opaque value identified by its provenance (parameter, result of an
          external call, attribute of an opaque value, operator over values);
          everything known about it is kept as facts in the state
  Ref     heap object (instance, class, function, module, list, dict, set,
          lock, context variable, ...) by allocation site / context
  TupleV, StarV, BoundV, ExtV, ...  structural values
"""


class V:
    __slots__ = ()


class Const(V):
    __slots__ = ('v', '_h')

    def __init__(self, v):
        self.v = v
        try:
            self._h = hash((type(v).__name__, v))
        except TypeError:
            self._h = hash(type(v).__name__)

    def __eq__(self, o):
        return isinstance(o, Const) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return self._h

    def __repr__(self):
        return repr(self.v)


class Sym(V):
    """Opaque value. tags: known type / policy tags (not part of identity)."""
    __slots__ = ('name', 'tags', '_h')

    def __init__(self, name, tags=()):
        self.name = name if isinstance(name, tuple) else (name,)
        self.tags = frozenset(tags)
        self._h = hash(('Sym', self.name))

    def __eq__(self, o):
        return isinstance(o, Sym) and (self is o or (self._h == o._h and self.name == o.name))

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '<' + _show(self.name) + '>'


def _show(n):
    if isinstance(n, tuple):
        if len(n) == 1:
            return _show(n[0])
        return str(n[0]) + '(' + ', '.join(_show(x) for x in n[1:]) + ')'
    return str(n)


class Ref(V):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('Ref', self.id))

    def __repr__(self):
        return '&%d' % self.id


class TupleV(V):
    __slots__ = ('items', '_h')

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(('T', self.items))

    def __eq__(self, o):
        return isinstance(o, TupleV) and o.items == self.items

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.items)) + ')'


class StarV(V):
    """An unknown number of elements coming from one opaque iterable."""
    __slots__ = ('src',)

    def __init__(self, src):
        self.src = src

    def __eq__(self, o):
        return isinstance(o, StarV) and o.src == self.src

    def __hash__(self):
        return hash(('*', self.src))

    def __repr__(self):
        return '*%r' % (self.src,)


class ExtV(V):
    """Something of the standard library / builtins, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(('E', self.name))

    def __repr__(self):
        return self.name


class BoundV(V):
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func == self.func and o.self_ == self.self_

    def __hash__(self):
        return hash(('B', self.func, self.self_))

    def __repr__(self):
        return 'bound(%r, %r)' % (self.func, self.self_)


class MethV(V):
    """Built-in method of a structural value or of an external object."""
    __slots__ = ('base', 'name')

    def __init__(self, base, name):
        self.base = base
        self.name = name

    def __eq__(self, o):
        return isinstance(o, MethV) and o.base == self.base and o.name == self.name

    def __hash__(self):
        return hash(('M', self.base, self.name))

    def __repr__(self):
        return '%r.%s' % (self.base, self.name)


class WrapV(V):
    """staticmethod / classmethod / property objects in class bodies."""
    __slots__ = ('kind', 'func')

    def __init__(self, kind, func):
        self.kind = kind
        self.func = func

    def __eq__(self, o):
        return isinstance(o, WrapV) and (o.kind, o.func) == (self.kind, self.func)

    def __hash__(self):
        return hash(('W', self.kind, self.func))

    def __repr__(self):
        return '%s(%r)' % (self.kind, self.func)


class SuperV(V):
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, SuperV) and (o.cls, o.self_) == (self.cls, self.self_)

    def __hash__(self):
        return hash(('S', self.cls, self.self_))


class CoroV(V):
    """A coroutine object: call of an `async def` not awaited yet."""
    __slots__ = ('func', 'pack')

    def __init__(self, func, pack):
        self.func = func
        self.pack = pack

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'coroutine(%r)' % (self.func,)


class SliceV(V):
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __eq__(self, o):
        return isinstance(o, SliceV) and (o.a, o.b, o.c) == (self.a, self.b, self.c)

    def __hash__(self):
        return hash(('SL', self.a, self.b, self.c))

    def __repr__(self):
        return 'slice(%r,%r,%r)' % (self.a, self.b, self.c)


class Exc:
    """Evaluation result: an exception in flight."""
    __slots__ = ('value', 'loc')

    def __init__(self, value, loc=None):
        self.value = value
        self.loc = loc

    def __repr__(self):
        return 'Exc(%r)' % (self.value,)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def boolv(b):
    return TRUE if b else FALSE


class Pack:
    """Call arguments. pos may contain StarV, kw maps names to values, dstar is a
    tuple of opaque ** mappings."""
    __slots__ = ('pos', 'kw', 'dstar')

    def __init__(self, pos=(), kw=None, dstar=()):
        self.pos = tuple(pos)
        self.kw = dict(kw or {})
        self.dstar = tuple(dstar)

    def key(self):
        return (self.pos, tuple(sorted(self.kw.items(), key=lambda x: x[0])), self.dstar)

    def __eq__(self, o):
        return isinstance(o, Pack) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '(' + ', '.join([repr(x) for x in self.pos] + ['%s=%r' % x for x in self.kw.items()] + ['**%r' % (x,) for x in self.dstar]) + ')'

    def prepend(self, v):
        return Pack((v,) + self.pos, self.kw, self.dstar)


class Obj:
    __slots__ = ('kind', 'cls', 'attrs', 'items', 'meta', 'owner')

    def __init__(self, kind, cls=None, attrs=None, items=None, meta=None, owner=None):
        self.kind = kind          # inst class func module list dict set env ext ctxvar lock gen
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.items = items        # list/set: python list of values ; dict: python dict
        self.meta = meta or {}
        self.owner = owner

    def copy(self, owner):
        items = self.items
        if items is not None:
            items = items.copy()
        return Obj(self.kind, self.cls, dict(self.attrs), items, self.meta, owner)


class Event:
    __slots__ = ('kind', 'data', 'loc', 'stack', 'locks')

    def __init__(self, kind, data, loc, stack, locks):
        self.kind = kind
        self.data = data
        self.loc = loc
        self.stack = stack
        self.locks = locks

    def __repr__(self):
        return '%s %s @%s' % (self.kind, {k: v for k, v in self.data.items()}, self.loc)


class State:
    __slots__ = ('base', 'delta', 'facts', 'trace', 'locks', 'excs', 'tok', 'symattrs', 'counters', 'ords', 'dead', 'foreign')

    def __init__(self):
        self.base = {}
        self.delta = {}
        self.facts = {}
        self.trace = None
        self.locks = ()
        self.excs = ()
        self.tok = object()
        self.symattrs = {}
        self.counters = {}
        self.ords = {}
        self.dead = None
        self.foreign = ()

    def fork(self):
        n = State.__new__(State)
        n.base = self.base
        n.delta = dict(self.delta)
        n.facts = dict(self.facts)
        n.trace = self.trace
        n.locks = self.locks
        n.excs = self.excs
        n.tok = object()
        self.tok = object()
        n.symattrs = dict(self.symattrs)
        n.counters = dict(self.counters)
        n.ords = dict(self.ords)
        n.dead = self.dead
        n.foreign = self.foreign
        return n

    def freeze(self):
        """Make everything allocated so far the shared base layer."""
        b = dict(self.base)
        b.update(self.delta)
        self.base = b
        self.delta = {}
        self.tok = object()

    def obj(self, ref):
        o = self.delta.get(ref.id)
        if o is None:
            o = self.base[ref.id]
        return o

    def mut(self, ref):
        o = self.obj(ref)
        if o.owner is not self.tok:
            o = o.copy(self.tok)
            self.delta[ref.id] = o
        return o

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def count(self, key):
        n = self.counters.get(key, 0)
        self.counters[key] = n + 1
        return n
