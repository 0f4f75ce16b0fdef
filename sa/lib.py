"""Driver shared by the checks: loads the package, runs analysed client programs
(most general clients written as source text, analysed together with the package),
havocs the configuration, and collects obligations / violations."""
import ast
import os
import textwrap

from .interp import *
from .values import *

SS = 'polog.core.stores.settings.settings_store'
ENGINE = 'polog.core.engine.engine'

SETTING_TAGS = {
    'level': {'rank', 'nonneg', 'int', 'notnone'},
    'default_level': {'rank', 'nonneg', 'int', 'notnone'},
    'default_error_level': {'rank', 'nonneg', 'int', 'notnone'},
    'logging_off': {'bool', 'notnone'},
    'deduplicate_errors': {'bool', 'notnone'},
    'silent_internal_exceptions': {'bool', 'notnone'},
    'suppress_by_default': {'bool', 'notnone'},
    'suppress_exception_subclasses': {'bool', 'notnone'},
    'traceback_cutting': {'bool', 'notnone'},
    'fields_intersection': {'bool', 'notnone'},
    'unknown_fields_in_handle_logs': {'bool', 'notnone'},
    'full_unlog': {'bool', 'notnone'},
    'started': {'bool', 'notnone'},
    'debug_mode': {'bool', 'notnone'},
    'logging_integration': {'bool', 'notnone'},
    'log_is_built_in': {'bool', 'notnone'},
    'service_name': {'maynone'},
    'smart_assert_politic': {'str', 'notnone'},
    'json_module': {'module', 'notnone'},
    'pool_size': {'int', 'nonneg', 'rank', 'notnone'},
    'max_queue_size': {'int', 'nonneg', 'rank', 'notnone'},
    'time_quant': {'float', 'nonneg', 'rank', 'notnone'},
    'max_delay_before_exit': {'float', 'nonneg', 'rank', 'notnone'},
    'delay_on_exit_loop_iteration_in_quants': {'int', 'nonneg', 'rank', 'notnone'},
    'engine': {'callable', 'notnone'},
    'logging_integration_handlers': {'object'},
}


def setting(key, extra=()):
    return Sym(('setting', key), SETTING_TAGS.get(key, {'notnone'}) | set(extra))


class Lost(AnalysisError):
    """a construct the rule is anchored on is gone"""


class World:
    def __init__(self, root, policy=None, modules=None, package='polog'):
        self.it = Interp(root, package, policy)
        self.root = root
        mods = modules or all_modules(root, package)
        self.base = self.it.boot(mods)
        self.it.steps = 0
        self.paths = 0
        self.clients = 0

    # ---- anchors
    def get(self, dotted, st=None):
        """value of 'module:attr.attr'"""
        mod, _, attrs = dotted.partition(':')
        st = st or self.base
        if mod not in self.it.modules:
            raise Lost('module %s is gone' % mod)
        v = self.it.modules[mod]
        for a in attrs.split('.'):
            o = st.obj(v) if isinstance(v, Ref) else None
            if o is None or a not in o.attrs:
                raise Lost('%s is gone' % dotted)
            v = o.attrs[a]
        return v

    def func_key(self, dotted):
        v = self.get(dotted)
        while isinstance(v, WrapV):
            v = v.func
        if not isinstance(v, Ref) or self.base.obj(v).kind != 'func':
            raise Lost('%s is not a function' % dotted)
        m = self.base.obj(v).meta
        return (m['modname'], m['qual'])

    def hook(self, dotted, fn):
        self.it.hooks[self.func_key(dotted)] = fn

    # ---- standard hooks
    def havoc_settings(self, fixed=None, extra=None, store=None):
        """every read of a setting yields an opaque value of its documented domain"""
        fixed = fixed or {}
        extra = extra or {}

        def read(it, st, f, pack, fr, n):
            k = pack.pos[1] if len(pack.pos) > 1 else next(iter(pack.kw.values()), None)
            if not isinstance(k, Const):
                return None
            if k.v in fixed:
                v = fixed[k.v]
                if v is None:
                    return None
                return [(st, v)]
            v = setting(k.v, extra.get(k.v, ()))
            return [(st, v)]
        for m in ('__getitem__', 'force_get'):
            self.hook(SS + ':SettingsStore.' + m, read)

    def record_hook(self):
        """the engine front-end is where a finished record is handed over"""
        def write(it, st, f, pack, fr, n):
            e = it.event(st, fr, n, 'record', log=pack.pos[1] if len(pack.pos) > 1 else next(iter(pack.kw.values())))
            return [(st, NONE)]
        self.hook(ENGINE + ':Engine.write', write)

    def summary(self, dotted, name, tags=(), results=None):
        """replace a helper by its contract (verified by a check of its own): a pure term of its arguments"""
        def fn(it, st, f, pack, fr, n):
            v = Sym((name,) + tuple(it.snap(st, x) for x in pack.pos) + tuple((k, it.snap(st, x)) for k, x in sorted(pack.kw.items())) + tuple(('**', it.snap(st, x)) for x in pack.dstar), tags)
            it.event(st, fr, n, 'summary', name=name, pack=pack, result=v)
            return [(st, v)]
        self.hook(dotted, fn)

    def encode_summaries(self):
        self.summary('polog.utils.json_vars:json_vars', 'json_vars', {'maynone'})
        self.summary('polog.utils.json_vars:json_one_variable', 'json_one', {'str'})
        self.summary('polog.core.utils.get_traceback:get_traceback', 'get_traceback', {'str'})
        self.summary('polog.core.utils.get_traceback:get_locals_from_traceback', 'get_locals', {'maynone'})

    # ---- clients
    def client(self, src, st=None, name='client', **binds):
        """analyse a client program against the package -> [Path]"""
        st = (st or self.base).fork()
        self.it.dead_states = []
        tree = ast.parse(textwrap.dedent(src), '<%s>' % name)
        m = self.it.alloc(st, Obj('module', attrs={'__name__': Const(name), **binds}, meta={'name': name, 'file': None}))
        fr = Frame(m, m, None, None, (('<%s>' % name, name, 0),), name)
        out = []
        for s, o in self.it.block(tree.body, st, fr):
            if o is not None and o[0] == 'dead':
                self.it.dead_states.append(s)
                continue
            out.append(Path(self, s, o, m, fr))
        self.paths += len(out)
        self.clients += 1
        return out


class Path:
    """one terminal abstract path of a client program"""

    def __init__(self, w, st, o, m, fr):
        self.w, self.st, self.o, self.m, self.fr = w, st, o, m, fr

    @property
    def exc(self):
        return self.o[1] if self.o is not None and self.o[0] == 'exc' else None

    def var(self, name):
        return self.st.obj(self.m).attrs.get(name)

    def eval(self, src, **binds):
        """evaluate an expression (usually: the specification) in every refinement of this path -> [(Path, value)]"""
        st = self.st.fork()
        st.mut(self.m).attrs.update(binds)
        node = ast.parse(textwrap.dedent(src).strip(), '<spec>', 'eval').body
        out = []
        for s, v in self.w.it.ev(node, st, self.fr):
            if isinstance(v, Exc):
                raise AnalysisError('specification raises: %s' % self.w.it.describe_exc(s, v.value))
            out.append((Path(self.w, s, self.o, self.m, self.fr), v))
        return out

    def run(self, src, **binds):
        """continue the path with more client statements -> [Path]"""
        if self.o is not None:
            return [self]
        st = self.st.fork()
        st.mut(self.m).attrs.update(binds)
        out = []
        self.w.it.dead_states = []
        for s, o in self.w.it.block(ast.parse(textwrap.dedent(src)).body, st, self.fr):
            if o is not None and o[0] == 'dead':
                self.w.it.dead_states.append(s)
                continue
            out.append(Path(self.w, s, o, self.m, self.fr))
        self.w.paths += len(out)
        return out

    def decide(self, src, **binds):
        """truth of a specification expression in every refinement -> [(Path, bool)]"""
        out = []
        for p, v in self.eval(src, **binds):
            for s, b in self.w.it.truth(p.st, v, self.fr, None):
                if isinstance(b, Exc):
                    raise AnalysisError('specification raises')
                out.append((Path(self.w, s, self.o, self.m, self.fr), b))
        return out

    def calls(self, callee):
        return [e for e in self.events('call') if e.data['callee'] == callee]

    def events(self, kind=None):
        return [e for e in self.st.events() if kind is None or e.kind == kind]

    def show_exc(self):
        return self.w.it.describe_exc(self.st, self.exc) if self.exc is not None else None

    def fact(self, *key):
        return self.st.facts.get(key)

    def facts_text(self, limit=14):
        out = []
        for k, v in self.st.facts.items():
            if k[0] in ('boolok', 'nottype'):
                continue
            out.append('%s(%s)=%s' % (k[0], ', '.join(map(repr, k[1:])), v))
        for (a, b), r in self.st.ords.items():
            out.append('%r %s %r' % (a, '/'.join(sorted(r)), b))
        return out[:limit]


def all_modules(root, package):
    mods = []
    for d, ds, fs in os.walk(os.path.join(root, package)):
        ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__'))
        for f in fs:
            if f.endswith('.py'):
                m = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
                if m.endswith('.__init__'):
                    m = m[:-9]
                mods.append(m)
    return sorted(mods)


def other_context(st, base):
    """the state as another thread or task sees it: same heap, its own context variables"""
    s = st.fork()
    for i, o in list(s.delta.items()):
        if o.kind == 'ctxvar':
            if i in base.base or i in base.delta:
                s.delta[i] = base.obj(Ref(i))
            else:
                m = s.mut(Ref(i))
                m.items = None
                m.attrs = {}
    s.trace = None
    s.locks = ()
    s.excs = ()
    return s


class Race:
    """wherever thread A touches an object that existed before it started, thread B may run to its end
    (or to a lock that A holds: then this schedule is not feasible); with deep=True B may also be stopped
    at each of its own shared accesses, or at a lock that A holds, A goes on to its end and B is resumed then"""
    WRAPPED = ('acquire', 'getattr', 'setattr', 'delattr', 'getitem', 'setitem', 'delitem', 'contains', 'meth_call', 'iter_values')

    def __init__(self, path, a, b, skip=(), full=False, deep=False, **binds):
        self.w = path.w
        self.it = it = path.w.it
        self.base = path.st
        self.b = ast.parse(textwrap.dedent(b), '<other thread>')
        self.shared = set(path.st.base) | set(path.st.delta)
        st = path.st.fork()
        st.freeze()
        self.m2 = it.alloc(st, Obj('module', attrs={**st.obj(path.m).attrs, **binds}, meta={'name': path.st.obj(path.m).meta['name'], 'file': None}))
        self.fr2 = Frame(self.m2, self.m2, None, None, (('<other thread>', 'other', 0),), path.fr.modname if hasattr(path.fr, 'modname') else 'client')
        self.skip = set(skip) | {path.m, self.m2}
        self.points = 0
        self.reached = 0
        self.steps0 = it.steps
        self.thinned = 0
        self.full = full
        self.switches = 0
        self.blocked = 0
        self.deep = deep
        self.cuts = []
        self.captures = None
        self.target = None
        self.theirs = None
        st.mut(path.m).attrs.update(binds)
        saved = {k: getattr(it, k) for k in self.WRAPPED}
        for k in self.WRAPPED:
            setattr(it, k, self.wrap(k, saved[k]))
        self.touched = None
        try:
            if not full:
                self.footprint(path, st, a)
            out = []
            it.dead_states = []
            starts = [st] + self.preempt(st)
            for s0 in starts:
                for s, o in it.block(ast.parse(textwrap.dedent(a)).body, s0, path.fr):
                    if o is not None and o[0] == 'dead':
                        it.dead_states.append(s)
                        continue
                    if 'cut' in s.counters:
                        for s2 in self.resume(s):
                            out.append(Path(self.w, s2, o, path.m, path.fr))
                        continue
                    out.append(Path(self.w, s, o, path.m, path.fr))
        finally:
            for k in self.WRAPPED:
                delattr(it, k)
        self.dead = [s for s in it.dead_states if s.dead == 'deadlock']
        self.alone = [p for p in out if 'preempted' not in p.st.counters]
        self.paths = [p for p in out if 'preempted' in p.st.counters]
        self.w.paths += len(out)
        self.w.clients += 1

    def other(self, p, name):
        return p.st.obj(self.m2).attrs.get(name)

    def wrap(self, kind, orig):
        def f(st, v, *a, **k):
            if self.captures is not None or self.target is not None:
                return self.in_other(kind, orig, st, v, a, k)
            if 'preempted' in st.counters or kind == 'acquire':
                return orig(st, v, *a, **k)
            b = v.base if isinstance(v, MethV) else v
            if not isinstance(b, Ref) or b in self.skip:
                return orig(st, v, *a, **k)
            old = b.id in self.shared
            if self.recording:
                if old:
                    key = self.key(kind, b, a, v)
                    self.touched[key] = self.touched.get(key, False) or self.writes(kind, v)
                return orig(st, v, *a, **k)
            if not self.relevant(st, kind, b, a, v) or (not old and not self.escaped(st, b)):
                return orig(st, v, *a, **k)
            if old and self.touched is not None:
                w = self.touched.get(self.key(kind, b, a, v))
                if w is None or not (w or self.writes(kind, v)):
                    return orig(st, v, *a, **k)
            pts = self.preempt(st)
            out = list(orig(st, v, *a, **k))
            for s in pts:
                out.extend(orig(s, v, *a, **k))
            return out
        return f

    def escaped(self, st, b):
        """is an object made by A reachable from what existed before"""
        seen = set()
        todo = [Ref(i) for i in st.delta if i in self.shared]
        while todo:
            r = todo.pop()
            if r in seen:
                continue
            seen.add(r)
            if r == b:
                return True
            if r.id in self.shared and r.id not in st.delta or r in self.skip:
                continue
            o = st.obj(r)
            vals = list(o.attrs.values())
            if isinstance(o.items, dict):
                vals += list(o.items) + list(o.items.values())
            elif o.items is not None:
                vals += list(o.items)
            vals += [v for k, v in (o.meta or {}).items() if isinstance(v, V)]
            if o.cls is not None:
                vals.append(o.cls)
            while vals:
                v = vals.pop()
                if isinstance(v, Ref):
                    todo.append(v)
                elif isinstance(v, TupleV):
                    vals.extend(v.items)
                elif isinstance(v, BoundV):
                    vals.extend((v.func, v.self_))
                elif isinstance(v, WrapV):
                    vals.append(v.func)
        return False

    recording = False
    READS = {'get', 'keys', 'values', 'items', 'copy', 'count', 'index', '__len__', '__contains__', '__iter__', '__getitem__'}

    def key(self, kind, b, a, v):
        return (b, a[0]) if kind in ('getattr', 'setattr', 'delattr') and isinstance(a[0], str) else (b, None)

    def writes(self, kind, v):
        return kind in ('setattr', 'delattr', 'setitem', 'delitem') or (kind == 'meth_call' and v.name not in self.READS)

    def footprint(self, path, st, a):
        """what B touches when it runs alone, before or after A: preemption elsewhere changes nothing"""
        it = self.it
        self.touched = {}
        dead = it.dead_states
        it.dead_states = []
        after = [s for s, o in it.block(ast.parse(textwrap.dedent(a)).body, self.mark(st.fork()), path.fr) if o is None or o[0] == 'exc']
        self.recording = True
        for s in [st.fork()] + [x.fork() for x in after]:
            s.counters.pop('preempted', None)
            s.locks, s.excs = (), ()
            for i, o in list(s.delta.items()):
                if o.kind == 'ctxvar' and (i in self.base.delta or i in self.base.base):
                    s.delta[i] = self.base.obj(Ref(i))
            it.block(self.b.body, s, self.fr2)
        self.recording = False
        if self.deep:
            mine, self.touched = self.touched, {}
            before = [s for s, o in it.block(self.b.body, self.mark(st.fork()), self.fr2) if o is None or o[0] == 'exc']
            self.recording = True
            for s in [st.fork()] + [x.fork() for x in before]:
                s.counters.pop('preempted', None)
                s.locks, s.excs = (), ()
                self.set_ctx(s, {})
                it.block(ast.parse(textwrap.dedent(a)).body, s, path.fr)
            self.recording = False
            self.theirs, self.touched = self.touched, mine
        it.dead_states = dead

    def mark(self, s):
        s.counters['preempted'] = 1
        return s

    def relevant(self, st, kind, b, a, v=None):
        o = st.obj(b)
        if o.kind == 'ctxvar':            # every thread has its own
            return False
        if o.kind == 'lock' and isinstance(v, MethV) and v.name in ('release', '__exit__'):
            return False                  # whoever waits goes on before the next access
        if o.kind == 'func' and kind == 'getattr':
            return False
        if o.kind == 'inst' and kind in ('contains', 'getitem', 'setitem', 'delitem', 'iter_values') and isinstance(o.cls, Ref) and o.items is None:
            return False                  # methods in the source: their own accesses count
        if kind == 'getattr':
            if o.kind == 'module':
                return False
            name = a[0]
            v = o.attrs.get(name)
            if v is None and o.kind == 'inst' and isinstance(o.cls, Ref):
                v = self.it.class_lookup(st, o.cls, name)
            while isinstance(v, WrapV):
                v = v.func
            if isinstance(v, Ref) and st.obj(v).kind in ('func', 'lock', 'class'):
                return False
            if isinstance(v, Ref) and st.obj(v).kind == 'ext' and 'Lock' in repr(st.obj(v).cls):
                return False
        return True

    def in_other(self, kind, orig, st, v, a, k):
        """an operation of B: a place to stop it, or the place where it goes on"""
        if self.target is not None and self.target[0] is None and 'resumed' not in st.counters:
            return []
        if 'resumed' in st.counters or not self.stops(kind, st, v, a):
            return orig(st, v, *a, **k)
        if self.captures is not None:
            self.captures.append(st.fork())
            return orig(st, v, *a, **k)
        if self.target[0]:
            self.target[0] -= 1
            return orig(st, v, *a, **k)
        self.target[0] = None
        s = self.target[1]
        self.it.next_id = max(self.it.next_id, self.target[2])
        return orig(s, v, *a, **k)

    def stops(self, kind, st, v, a):
        if kind == 'acquire':
            return v in st.foreign
        b = v.base if isinstance(v, MethV) else v
        if not isinstance(b, Ref) or b in self.skip:
            return False
        if b.id >= self.mark_b:
            return self.relevant(st, kind, b, a, v) and self.escaped(st, b)
        if not self.relevant(st, kind, b, a, v):
            return False
        if b.id in self.shared and self.theirs is not None:
            w = self.theirs.get(self.key(kind, b, a, v))
            return w is not None and (w or self.writes(kind, v))
        return True

    ctx_base = None

    def ctx(self, st):
        if self.ctx_base is None or self.ctx_base[0] is not st.base:
            self.ctx_base = (st.base, {i: o for i, o in st.base.items() if o.kind == 'ctxvar'})
        return {**self.ctx_base[1], **{i: o for i, o in st.delta.items() if o.kind == 'ctxvar'}}

    def set_ctx(self, s, values):
        for i, o in self.ctx(s).items():
            if i in values:
                s.delta[i] = values[i]
            elif i in self.base.delta or i in self.base.base:
                s.delta[i] = self.base.obj(Ref(i))
            else:
                m = s.mut(Ref(i))
                m.items = None
                m.attrs = {}

    PER_POINT, DENSE, BUDGET = 16, 30, 200_000

    def preempt(self, st):
        self.reached += 1
        spent = self.it.steps - self.steps0
        if spent > self.BUDGET and not self.full:
            self.thinned += 1
            return []
        if self.reached > self.DENSE and not self.full and self.reached % (1 << min(6, self.reached // self.DENSE)):
            self.thinned += 1
            return []
        self.points += 1
        it = self.it
        s = st.fork()
        s.counters['preempted'] = 1
        mine = self.ctx(st)
        locks, excs = st.locks, st.excs
        self.set_ctx(s, {})
        s.locks, s.excs, s.foreign = (), (), locks
        out = []
        if self.deep:
            start, next_id = s.fork(), it.next_id
            self.captures, self.mark_b = [], next_id
        dead0 = len(it.dead_states)
        try:
            res = list(it.block(self.b.body, s, self.fr2))
        finally:
            caps, self.captures = self.captures, None
        out = self.finish(res, mine, locks, excs)
        for d in it.dead_states[dead0:]:
            if d.dead == 'blocked':
                self.blocked += 1
        it.dead_states[dead0:] = [d for d in it.dead_states[dead0:] if d.dead != 'blocked']
        step = 1 if self.full or not caps else -(-len(caps) // self.PER_POINT)
        for n, c in enumerate(caps or ()):
            if n % step or (spent > self.BUDGET // 2 and not self.full):
                self.thinned += 1
                continue
            self.cuts.append((start, next_id, n, c.locks, c.excs, self.ctx(c)))
            self.set_ctx(c, mine)
            c.locks, c.excs, c.foreign = locks, excs, c.locks
            c.counters['cut'] = len(self.cuts) - 1
            out.append(c)
        return out

    def finish(self, res, mine, locks, excs):
        out = []
        for s2, o in res:
            if o is not None and o[0] == 'dead':
                continue
            s2 = s2.fork()
            s2.mut(self.m2).attrs['OUTCOME'] = o[1] if o is not None and o[0] == 'exc' else NONE
            s2.mut(self.m2).attrs['LEFT'] = Const(len(s2.locks))
            self.set_ctx(s2, mine)
            s2.locks, s2.excs, s2.foreign = locks, excs, ()
            out.append(s2)
        return out

    def resume(self, s):
        """A is at its end: B goes on from where it was stopped"""
        it = self.it
        start, next_id, n, locks, excs, ctx = self.cuts[s.counters['cut']]
        self.switches += 1
        mine, my_locks, my_excs = self.ctx(s), s.locks, s.excs
        s = s.fork()
        self.set_ctx(s, ctx)
        s.locks, s.excs, s.foreign = locks, excs, ()
        s.counters['resumed'] = 1
        saved = it.next_id
        it.next_id = next_id
        self.mark_b = next_id
        self.target = [n, s, saved]
        dead = it.dead_states
        it.dead_states = []
        try:
            res = [(x, o) for x, o in it.block(self.b.body, start.fork(), self.fr2) if 'resumed' in x.counters]
        finally:
            self.target = None
            it.next_id = max(it.next_id, saved)
            it.dead_states, gone = dead, it.dead_states
        it.dead_states.extend(d for d in gone if 'resumed' in d.counters)
        return self.finish(res, mine, my_locks, my_excs)
