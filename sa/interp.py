"""Path-sensitive interprocedural abstract interpreter for a package of Python source.

Nothing of the analysed program is imported or executed: modules are parsed with
`ast` and their abstract effect is computed over the domains of values.py.
Every statement maps a state to a set of (state, outcome) pairs; calls to functions
of the package are inlined through the resolved callee value, calls to anything else
are opaque (recorded as events, results are provenance terms, may raise according to
the policy).  Branches on unknown values split the state and record the fact.
"""
import ast
import builtins as _b
import os
import sys

from .values import *
from . import values as _v

sys.setrecursionlimit(100000)


class AnalysisError(Exception):
    """The analysis cannot give an answer (lost anchor, budget, unsupported code)."""


class Budget(AnalysisError):
    pass


class Policy:
    """What opaque things may do. Checks override the methods/attributes they need."""
    loop_bound = 3        # iterations of `while` kept per path
    elem_bound = 2        # elements assumed in an opaque iterable (0..bound)
    recursion = 5         # active inlined frames of the same function
    max_steps = 40_000_000
    user_str_raises = False
    user_setattr_raises = False
    user_bool_raises = False
    record_loads = False
    tracebacks = False    # keep the frames an exception has passed

    def may_raise(self, it, st, callee, name, pack):
        """-> iterable of 'Exception' / 'BaseException' / ExtV / Ref classes"""
        if isinstance(callee, Sym) and 'user' in callee.tags:
            return ('Exception',)
        return ()

    def result(self, it, st, callee, name, pack):
        """-> value or None (default provenance term)"""
        return None

    def fact(self, it, st, key):
        """invariant of the environment deciding an unknown fact, or None"""
        return None

    def load(self, it, st, ref, name, value):
        return value

    def init_len(self, it, st, sym):
        """possible lengths of an opaque iterable"""
        return range(self.elem_bound + 1)


IMPURE = {
    'time.time', 'time.monotonic', 'time.perf_counter', 'time.process_time', 'datetime.datetime.now',
    'datetime.datetime.utcnow', 'random.random', 'random.choice', 'uuid.uuid4', 'os.getpid', 'os.stat',
    'os.path.exists', 'os.path.isfile', 'os.path.getsize', 'builtins.input', 'builtins.open', 'threading.Thread', 'builtins.object',
    'threading.Timer', 'queue.Queue', 'weakref.finalize', 'smtplib.SMTP_SSL', 'threading.get_ident',
}

EXTRA_EXC = {
    'queue.Empty': 'Exception', 'queue.Full': 'Exception', 'asyncio.CancelledError': 'BaseException',
    'asyncio.exceptions.CancelledError': 'BaseException', 'json.JSONDecodeError': 'ValueError',
    'json.decoder.JSONDecodeError': 'ValueError', 'smtplib.SMTPException': 'OSError',
    'dataclasses.FrozenInstanceError': 'AttributeError', 'shutil.Error': 'OSError',
    'shutil.SameFileError': 'OSError', 'threading.BrokenBarrierError': 'RuntimeError',
    'asyncio.TimeoutError': 'Exception', 'concurrent.futures.CancelledError': 'Exception',
    'subprocess.CalledProcessError': 'Exception',
}

TYPE_GROUPS = ['str', 'int', 'float', 'list', 'tuple', 'dict', 'set', 'NoneType', 'bytes', 'type', 'exc', 'module', 'function', 'complex', 'frozenset']
PYT = {'str': str, 'int': int, 'float': float, 'bool': bool, 'list': list, 'tuple': tuple, 'dict': dict,
       'set': set, 'NoneType': type(None), 'bytes': bytes, 'complex': complex, 'frozenset': frozenset, 'object': object}

STR_METHODS = {'split', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'lower', 'upper', 'isidentifier',
               'join', 'title', 'count', 'find', 'index', 'isdigit', 'isalpha', 'isnumeric', 'isdecimal', 'partition',
               'rpartition', 'rsplit', 'splitlines', 'format', 'encode', 'capitalize', 'zfill', 'ljust', 'rjust', 'center',
               'removeprefix', 'removesuffix', 'casefold', 'isupper', 'islower', 'swapcase', 'isspace', 'isalnum', 'expandtabs', 'translate', 'format_map', 'rfind', 'rindex'}


class Frame:
    __slots__ = ('env', 'module', 'func', 'cls', 'stack', 'classenv', 'yields', 'cm_body', 'file')

    def __init__(self, env, module, func, cls, stack, file):
        self.env = env
        self.module = module      # Ref of the module object
        self.func = func
        self.cls = cls            # class Ref for zero-argument super()
        self.stack = stack        # tuple of (qualname, file, line of the call)
        self.classenv = None
        self.yields = None
        self.cm_body = None
        self.file = file


def scope_names(node):
    """Names local to a function body, and its global / nonlocal declarations."""
    loc, glob, nonl = set(), set(), set()

    def target(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for s in ast.walk(n):
                if isinstance(s, ast.NamedExpr):
                    target(s.target)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.AsyncFor, ast.NamedExpr)):
            target(n.target)
        elif isinstance(n, ast.withitem):
            if n.optional_vars is not None:
                target(n.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                loc.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                loc.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in (node.body if isinstance(node.body, list) else [node.body]):
        walk(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    return loc - glob - nonl, glob, nonl


def is_generator(node):
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(walk(c) for c in ast.iter_child_nodes(n))
    if isinstance(node, ast.Lambda):
        return False
    return any(walk(s) for s in node.body)


from .exprs import ExprMixin
from .calls import CallMixin
from .models import ModelMixin


class Interp(ExprMixin, CallMixin, ModelMixin):
    def __init__(self, root, package, policy=None):
        self.root = root
        self.package = package
        self.policy = policy or Policy()
        self.next_id = 1
        self.asts = {}
        self.files = {}
        self.hooks = {}          # qualname -> fn(it, st, fr, func_ref, pack) -> results or None
        self.scope_cache = {}
        self.gen_cache = {}
        self.steps = 0
        self.cuts = 0
        self.analysed = set()    # qualnames of functions interpreted
        self.opaque_seen = {}    # names of external callees -> count
        self.branches = 0
        self.modules = {}
        self.std = set(getattr(sys, 'stdlib_module_names', ())) | {'_testcapi'}
        self.missing = []
        self.ext_cache = {}
        self.mro_cache = {}
        self.dead_states = []

    # ---------------------------------------------------------------- modules
    def path_of(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        if os.path.isdir(p):
            return None, True
        return None, None

    def in_package(self, name):
        return name == self.package or name.startswith(self.package + '.')

    def alloc(self, st, obj):
        r = Ref(self.next_id)
        self.next_id += 1
        obj.owner = st.tok
        st.delta[r.id] = obj
        return r

    def load_module(self, st, name):
        """-> (st, Ref | Exc)"""
        if name in self.modules:
            return st, self.modules[name]
        if '.' in name:
            st, r = self.load_module(st, name.rsplit('.', 1)[0])
            if isinstance(r, Exc):
                return st, r
            if name in self.modules:
                return st, self.modules[name]
        path, ispkg = self.path_of(name)
        if ispkg is None:
            return st, Exc(self.make_exc(st, 'ModuleNotFoundError', name))
        m = self.alloc(st, Obj('module', attrs={'__name__': Const(name)}, meta={'name': name, 'file': path}))
        self.modules[name] = m
        if path is not None:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            try:
                tree = ast.parse(src, path)
            except SyntaxError as e:
                raise AnalysisError('cannot parse %s: %s' % (path, e))
            self.asts[name] = tree
            rel = os.path.relpath(path, self.root)
            self.files[name] = rel
            fr = Frame(m, m, None, None, (('<module %s>' % name, rel, 0),), rel)
            res = self.block(tree.body, st, fr)
            ok = [s for s, o in res if o is None]
            if not ok:
                raise AnalysisError('module %s cannot be analysed: %s' % (name, '; '.join(self.describe_outcome(s_, o) for s_, o in res[:2])))
            st = ok[0]
        if '.' in name:
            parent, child = name.rsplit('.', 1)
            st.mut(self.modules[parent]).attrs[child] = m
        return st, m

    def describe_exc(self, st, v):
        if isinstance(v, Ref) and st.obj(v).kind == 'inst':
            o = st.obj(v)
            c = o.cls.name if isinstance(o.cls, ExtV) else st.obj(o.cls).meta['qual'] if isinstance(o.cls, Ref) else repr(o.cls)
            return '%s%r' % (c, o.attrs.get('args', ''))
        return repr(v)

    def describe_outcome(self, st, o):
        if o is not None and o[0] == 'exc':
            return '%s at %s' % (self.describe_exc(st, o[1]), o[2])
        return repr(o)

    def import_name(self, st, dotted):
        """value of `import dotted` bound to its last component"""
        if self.in_package(dotted):
            return self.load_module(st, dotted)
        top = dotted.split('.')[0]
        if top not in self.std:
            return st, Exc(self.make_exc(st, 'ModuleNotFoundError', dotted))
        return st, ExtV(dotted)

    def boot(self, modules):
        st = State()
        for m in modules:
            st, r = self.load_module(st, m)
            if isinstance(r, Exc):
                raise AnalysisError('module %s not found' % m)
        st.freeze()
        self.boot_events = list(st.events())
        st.trace = None
        st.facts = {}
        return st

    # ---------------------------------------------------------------- tools
    def loc(self, fr, node):
        return (fr.file, getattr(node, 'lineno', 0))

    def event(self, st, fr, node, kind, **data):
        e = Event(kind, data, self.loc(fr, node) if node is not None else (fr.file, 0), fr.stack, st.locks)
        st.trace = (st.trace, e)
        return e

    def make_exc(self, st, name, *args):
        """Ref to an instance of a builtin exception class."""
        full = name if '.' in name else 'builtins.' + name
        return self.alloc(st, Obj('inst', cls=ExtV(full), attrs={'args': TupleV([a if isinstance(a, V) else Const(a) for a in args])}))

    def raise_(self, st, name, *args):
        return (st, Exc(self.make_exc(st, name, *args)))

    def tick(self):
        self.steps += 1
        if self.steps > self.policy.max_steps:
            raise Budget('step budget exhausted')

    def map(self, results, fn):
        """sequence: apply fn(st, value) to every non-raising result"""
        out = []
        for st, v in results:
            if isinstance(v, Exc):
                out.append((st, v))
            else:
                out.extend(fn(st, v))
        return out

    # ---------------------------------------------------------------- facts
    def decide(self, st, key, fr=None, node=None):
        """split on an unknown boolean fact -> [(st, bool)]"""
        k = st.facts.get(key)
        if k is not None:
            return [(st, k)]
        k = self.policy.fact(self, st, key)
        if k is not None:
            st.facts[key] = k
            return [(st, k)]
        self.branches += 1
        t = st.fork()
        st.facts[key] = True
        t.facts[key] = False
        return [(st, True), (t, False)]

    def truth(self, st, v, fr=None, node=None):
        """-> [(st, True|False|Exc)]"""
        if isinstance(v, Const):
            return [(st, bool(v.v))]
        if isinstance(v, TupleV):
            if not v.items:
                return [(st, False)]
            if any(not isinstance(x, StarV) for x in v.items):
                return [(st, True)]
            return self.truth(st, v.items[0].src) if len(v.items) == 1 else [(s, n > 0) for s, n in self.total_len(st, v.items)]
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ('list', 'set'):
                if not o.items:
                    return [(st, False)]
                if any(not isinstance(x, StarV) for x in o.items):
                    return [(st, True)]
                return [(s, n > 0) for s, n in self.total_len(st, o.items)]
            if o.kind == 'dict':
                if o.items:
                    return [(st, True)]
                rest = o.meta.get('rest')
                if rest is not None:
                    return [(s, n > 0) for s, n in self.sym_len(st, rest)]
                return [(st, False)]
            if o.kind == 'view':
                return self.truth(st, o.meta['dict'], fr, node)
            if o.kind == 'inst' and isinstance(o.cls, Ref):
                for m in ('__bool__', '__len__'):
                    f = self.class_lookup(st, o.cls, m)
                    if f is not None:
                        out = []
                        for s, r in self.call(st, BoundV(f, v), Pack(), fr, node):
                            if isinstance(r, Exc):
                                out.append((s, r))
                            else:
                                out.extend(self.truth(s, r, fr, node))
                        return out
            return [(st, True)]
        if isinstance(v, Sym) and v.name[0] == 'fstr' and any(isinstance(x, Const) and isinstance(x.v, str) and x.v for x in v.name[1:]):
            return [(st, True)]
        if isinstance(v, Sym):
            pre = []
            if 'user' in v.tags and self.policy.user_bool_raises and ('boolok', v) not in st.facts and self.sym_type(st, v) is None and 'callable' not in v.tags:
                t = st.fork()
                st.facts[('boolok', v)] = True
                t.facts[('boolok', v)] = False
                pre = [(t, Exc(Sym(('exc', 'bool', v.name), {'exc', 'Exception', 'user'})))]
            elif st.facts.get(('boolok', v)) is False:
                return [(st, Exc(Sym(('exc', 'bool', v.name), {'exc', 'Exception', 'user'})))]
            return pre + self.sym_truth(st, v)
        return [(st, True)]

    def sym_truth(self, st, v):
        k = st.facts.get(('truth', v))
        if k is not None:
            return [(st, k)]
        ln = st.facts.get(('len', v))
        if ln is not None:
            return [(st, ln > 0)]
        if st.facts.get(('none', v)):
            return [(st, False)]
        t = self.sym_type(st, v)
        if t in ('exc', 'function', 'module', 'type', 'object') or 'callable' in v.tags or 'truthy' in v.tags:
            return [(st, True)]
        for (kk, val) in st.facts.items():
            if kk[0] == 'eq' and val and kk[1] == v and isinstance(kk[2], Const):
                return [(st, bool(kk[2].v))]
        if (t == 'int' and 'bool' not in v.tags) or t == 'float' or 'rank' in v.tags:
            return [(s, not r) for s, r in self.compare_order(st, '==', v, Const(0))]
        if t in ('list', 'tuple', 'dict', 'set'):
            return [(s, n > 0) for s, n in self.sym_len(st, v)]
        out = []
        self.branches += 1
        f = st.fork()
        st.facts[('truth', v)] = True
        if ('none', v) not in st.facts:
            st.facts[('none', v)] = False
        f.facts[('truth', v)] = False
        out.append((st, True))
        out.append((f, False))
        return out

    def sym_len(self, st, v):
        """-> [(st, int)] possible lengths of an opaque sized value"""
        k = st.facts.get(('len', v))
        if k is not None:
            return [(st, k)]
        lens = list(self.policy.init_len(self, st, v))
        tr = st.facts.get(('truth', v))
        if tr is True:
            lens = [x for x in lens if x > 0]
        if tr is False:
            lens = [0]
        out = []
        for i, n in enumerate(lens):
            s = st if i == len(lens) - 1 else st.fork()
            s.facts[('len', v)] = n
            out.append((s, n))
        return out

    def total_len(self, st, items):
        base = sum(1 for x in items if not isinstance(x, StarV))
        res = [(st, base)]
        for x in items:
            if isinstance(x, StarV):
                res = [(s2, n + m) for s, n in res for s2, m in self.iter_len(s, x.src)]
        return res

    def iter_len(self, st, src):
        return self.sym_len(st, src)

    # ---- types of opaque values
    def sym_type(self, st, v):
        """best known builtin type group of an opaque value, or None"""
        for t in TYPE_GROUPS:
            if t in v.tags:
                return t
        if 'bool' in v.tags:
            return 'int'
        k = st.facts.get(('type', v))
        return k

    def sym_isinst(self, st, v, tname):
        """isinstance(v, <builtin type tname>) -> [(st, bool)]"""
        if tname == 'object':
            return [(st, True)]
        if tname == 'bool':
            if 'bool' in v.tags:
                return [(st, True)]
            t = self.sym_type(st, v)
            if t is not None and t != 'int':
                return [(st, False)]
            if 'rank' in v.tags or 'int' in v.tags:
                return [(st, False)]
            k = st.facts.get(('isbool', v))
            if k is not None:
                return [(st, k)]
            f = st.fork()
            st.facts[('isbool', v)] = True
            st.facts[('type', v)] = 'int'
            st.facts[('none', v)] = False
            f.facts[('isbool', v)] = False
            return [(st, True), (f, False)]
        t = self.sym_type(st, v)
        if t is not None:
            return [(st, t == tname)]
        if st.facts.get(('none', v)):
            return [(st, tname == 'NoneType')]
        if tname == 'NoneType':
            return self.is_none(st, v)
        k = st.facts.get(('nottype', v, tname))
        if k is not None:
            return [(st, False)]
        if v.tags & {'callable'} and tname in ('str', 'int', 'float', 'list', 'tuple', 'dict', 'set', 'bytes', 'NoneType'):
            return [(st, False)]
        if st.facts.get(('callable', v)) and tname in ('str', 'int', 'float', 'list', 'tuple', 'dict', 'set', 'bytes', 'NoneType'):
            return [(st, False)]
        self.branches += 1
        f = st.fork()
        st.facts[('type', v)] = tname
        st.facts[('none', v)] = False
        f.facts[('nottype', v, tname)] = True
        return [(st, True), (f, False)]

    def is_none(self, st, v):
        if isinstance(v, Const):
            return [(st, v.v is None)]
        if not isinstance(v, Sym):
            return [(st, False)]
        k = st.facts.get(('none', v))
        if k is not None:
            return [(st, k)]
        if 'notnone' in v.tags or self.sym_type(st, v) not in (None, 'NoneType') or st.facts.get(('truth', v)) or v.tags & {'callable', 'rank'}:
            return [(st, False)]
        if v.name and v.name[0] in ('+', '-', '*', '/', '//', '%', '**', 'fstr', 'not', 'exc', 'typeof', 'bin'):
            return [(st, False)]
        if 'maynone' not in v.tags and not self.policy_maynone(v):
            return [(st, False)]
        self.branches += 1
        f = st.fork()
        st.facts[('none', v)] = True
        st.facts[('truth', v)] = False
        f.facts[('none', v)] = False
        return [(st, True), (f, False)]

    def policy_maynone(self, v):
        return True

    # ---- ordering domain: weak orders over opaque atoms and numeric constants
    def ord_rel(self, st, a, b):
        """known relation of a to b: set of '<','=','>'"""
        if a == b:
            return {'='}
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return {'<' if a.v < b.v else '>' if a.v > b.v else '='}
            except TypeError:
                return {'<', '=', '>'}
        atoms = {a, b}
        for (x, y) in st.ords:
            atoms.add(x)
            atoms.add(y)
        atoms = list(atoms)
        rel = {}

        def get(x, y):
            if x == y:
                return {'='}
            if (x, y) in rel:
                return rel[(x, y)]
            if isinstance(x, Const) and isinstance(y, Const):
                try:
                    return {'<' if x.v < y.v else '>' if x.v > y.v else '='}
                except TypeError:
                    return {'<', '=', '>'}
            return {'<', '=', '>'}

        inv = {'<': '>', '>': '<', '=': '='}
        for (x, y), r in st.ords.items():
            rel[(x, y)] = set(r)
            rel[(y, x)] = {inv[c] for c in r}
        for x in atoms:
            if isinstance(x, Sym) and ('nonneg' in x.tags):
                for y in atoms:
                    if isinstance(y, Const) and isinstance(y.v, (int, float)):
                        if y.v < 0:
                            rel[(x, y)] = get(x, y) & {'>'}
                        elif y.v == 0:
                            rel[(x, y)] = get(x, y) & {'>', '='}
                        rel[(y, x)] = {inv[c] for c in get(x, y)}
        comp = {('<', '<'): '<', ('<', '='): '<', ('=', '<'): '<', ('=', '='): '=', ('>', '>'): '>', ('>', '='): '>', ('=', '>'): '>'}
        changed = True
        while changed:
            changed = False
            for x in atoms:
                for y in atoms:
                    if x == y:
                        continue
                    r1 = get(x, y)
                    for z in atoms:
                        if z == x or z == y:
                            continue
                        r2 = get(y, z)
                        poss = set()
                        for c in r1:
                            for d in r2:
                                e = comp.get((c, d))
                                if e is None:
                                    poss = {'<', '=', '>'}
                                    break
                                poss.add(e)
                            if len(poss) == 3:
                                break
                        if len(poss) < 3:
                            cur = get(x, z)
                            new = cur & poss
                            if new != cur:
                                rel[(x, z)] = new
                                rel[(z, x)] = {inv[c] for c in new}
                                changed = True
        return get(a, b)

    def compare_order(self, st, op, a, b):
        """-> [(st, bool)] for numeric-like atoms"""
        want = {'<': {'<'}, '<=': {'<', '='}, '>': {'>'}, '>=': {'>', '='}, '==': {'='}, '!=': {'<', '>'}}[op]
        r = self.ord_rel(st, a, b)
        if not r:
            return []
        if r <= want:
            return [(st, True)]
        if not (r & want):
            return [(st, False)]
        self.branches += 1
        f = st.fork()
        st.ords[(a, b)] = frozenset(r & want)
        f.ords[(a, b)] = frozenset(r - want)
        return [(st, True), (f, False)]

    # ---------------------------------------------------------------- blocks
    def block(self, stmts, st, fr):
        """-> [(st, outcome)]; outcome None | ('ret',v) | ('exc',v,loc) | ('brk',) | ('cont',)"""
        cur = [st]
        out = []
        for s in stmts:
            nxt = []
            for c in cur:
                self.tick()
                for s2, o in self.stmt(s, c, fr):
                    if s2.dead:
                        out.append((s2, ('dead',)))
                    elif o is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, o))
            cur = nxt
            if not cur:
                break
        out.extend((c, None) for c in cur)
        return out

    def lift(self, results, fr, node):
        """expression results -> statement results (value dropped)"""
        out = []
        for s, v in results:
            if isinstance(v, Exc):
                out.append((s, ('exc', v.value, v.loc or self.loc(fr, node))))
            else:
                out.append((s, None))
        return out

    def stmt(self, n, st, fr):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError('unsupported statement %s at %s' % (type(n).__name__, self.loc(fr, n)))
        return m(n, st, fr)

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)) or (isinstance(n.value, ast.Await) and False):
            return self.do_yield(n.value, st, fr, n)
        return self.lift(self.ev(n.value, st, fr), fr, n)

    def do_yield(self, y, st, fr, n):
        out = []
        if isinstance(y, ast.YieldFrom):
            for s, v in self.ev(y.value, st, fr):
                if isinstance(v, Exc):
                    out.append((s, ('exc', v.value, v.loc)))
                    continue
                for s2, items in self.iter_values(s, v, fr, n):
                    if isinstance(items, Exc):
                        out.append((s2, ('exc', items.value, items.loc)))
                        continue
                    if fr.yields is not None:
                        s2.mut(fr.yields).items.extend(items)
                    out.append((s2, None))
            return out
        for s, v in (self.ev(y.value, st, fr) if y.value is not None else [(st, NONE)]):
            if isinstance(v, Exc):
                out.append((s, ('exc', v.value, v.loc)))
                continue
            if fr.cm_body is not None:
                body = fr.cm_body
                fr2 = fr
                for s2, o in body(s, v):
                    if o is None or o[0] == 'exc':
                        out.append((s2, o))
                    else:
                        s2.counters[('pending', id(fr2))] = o
                        out.append((s2, None))
            else:
                if fr.yields is not None:
                    box = s.mut(fr.yields)
                    box.items.append(v)
                    lim = box.meta.get('limit')
                    if lim is not None and len(box.items) >= lim:
                        out.append((s, ('ret', NONE)))
                        continue
                out.append((s, None))
        return out

    def s_Pass(self, n, st, fr):
        return [(st, None)]

    def s_Break(self, n, st, fr):
        return [(st, ('brk',))]

    def s_Continue(self, n, st, fr):
        return [(st, ('cont',))]

    def s_Global(self, n, st, fr):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(st, ('ret', NONE))]
        return [(s, ('exc', v.value, v.loc or self.loc(fr, n)) if isinstance(v, Exc) else ('ret', v)) for s, v in self.ev(n.value, st, fr)]

    def s_Assign(self, n, st, fr):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            out = []
            for s, o in self.do_yield(n.value, st, fr, n):
                if o is None:
                    for t in n.targets:
                        out.extend(self.lift(self.assign(t, NONE, s, fr), fr, n))
                else:
                    out.append((s, o))
            return out
        def k(s, v):
            res = [(s, v)]
            for t in n.targets:
                res = self.map(res, lambda s2, _, t=t: self.assign(t, v, s2, fr))
            return res
        return self.lift(self.map(self.ev(n.value, st, fr), k), fr, n)

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, None)]
        return self.lift(self.map(self.ev(n.value, st, fr), lambda s, v: self.assign(n.target, v, s, fr)), fr, n)

    def s_AugAssign(self, n, st, fr):
        t = n.target
        load = ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else \
            ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t) if isinstance(t, ast.Attribute) else \
            ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)

        def k(s, pair):
            return self.map(self.binop_inplace(n.op, pair.items[0], pair.items[1], s, fr, n), lambda s2, v: self.assign(t, v, s2, fr))
        return self.lift(self.map(self.evs([load, n.value], st, fr), k), fr, n)

    def s_Delete(self, n, st, fr):
        res = [(st, NONE)]
        for t in n.targets:
            res = self.map(res, lambda s, _, t=t: self.delete(t, s, fr))
        return self.lift(res, fr, n)

    def s_Assert(self, n, st, fr):
        def k(s, v):
            out = []
            for s2, b in self.truth(s, v, fr, n):
                if isinstance(b, Exc):
                    out.append((s2, b))
                elif b:
                    out.append((s2, NONE))
                else:
                    out.append(self.raise_(s2, 'AssertionError'))
            return out
        return self.lift(self.map(self.ev(n.test, st, fr), k), fr, n)

    def s_If(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Exc):
                out.append((s, ('exc', b.value, b.loc or self.loc(fr, n))))
            else:
                body = n.body if b else n.orelse
                out.extend(self.block(body, s, fr))
        return out

    def cond(self, test, st, fr):
        """truth of an expression -> [(st, bool|Exc)]"""
        out = []
        for s, v in self.ev(test, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v, fr, test))
        return out

    def s_While(self, n, st, fr):
        """iterations that split nothing are followed as far as they go, the others up to the bound"""
        out = []
        cur = [st]
        i = 0
        free = 0
        while cur:
            nxt = []
            single = len(cur) == 1
            leave = len(out)
            for c in cur:
                for s, b in self.cond(n.test, c, fr):
                    if isinstance(b, Exc):
                        out.append((s, ('exc', b.value, b.loc)))
                    elif not b:
                        out.extend(self.block(n.orelse, s, fr))
                    elif i >= self.policy.loop_bound or free > 400:
                        self.cuts += 1
                        self.event(s, fr, n, 'cut')
                        s.dead = 'loop'
                        out.append((s, ('dead',)))
                    else:
                        for s2, o in self.block(n.body, s, fr):
                            if o is None or o[0] == 'cont':
                                nxt.append(s2)
                            elif o[0] == 'brk':
                                out.append((s2, None))
                            else:
                                out.append((s2, o))
            if single and len(nxt) == 1 and len(out) == leave:
                free += 1
            else:
                i += 1
            cur = nxt
        return out

    def s_For(self, n, st, fr):
        out = []
        for s, v in self.ev(n.iter, st, fr):
            if isinstance(v, Exc):
                out.append((s, ('exc', v.value, v.loc or self.loc(fr, n))))
                continue
            self.iter_event(s, v, fr, n)
            for s2, items in self.iter_values(s, v, fr, n):
                if isinstance(items, Exc):
                    out.append((s2, ('exc', items.value, items.loc or self.loc(fr, n))))
                    continue
                out.extend(self.for_items(n, items, s2, fr))
        return out

    s_AsyncFor = s_For

    def iter_event(self, st, v, fr, n):
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ('list', 'dict', 'set'):
                self.event(st, fr, n, 'walk', obj=v)
            elif o.kind == 'view':
                self.event(st, fr, n, 'walk', obj=o.meta['dict'])

    def for_items(self, n, items, st, fr):
        out = []
        cur = [st]
        for item in items:
            nxt = []
            for c in cur:
                for s, r in self.assign(n.target, item, c, fr):
                    if isinstance(r, Exc):
                        out.append((s, ('exc', r.value, r.loc)))
                        continue
                    for s2, o in self.block(n.body, s, fr):
                        if o is None or o[0] == 'cont':
                            nxt.append(s2)
                        elif o[0] == 'brk':
                            out.append((s2, None))
                        else:
                            out.append((s2, o))
            cur = nxt
        for c in cur:
            out.extend(self.block(n.orelse, c, fr))
        return out

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            if st.excs:
                return [(st, ('exc', st.excs[-1], self.loc(fr, n)))]
            return [(st, ('exc', self.make_exc(st, 'RuntimeError', 'No active exception to reraise'), self.loc(fr, n)))]
        out = []
        for s, v in self.ev(n.exc, st, fr):
            if isinstance(v, Exc):
                out.append((s, ('exc', v.value, v.loc)))
                continue
            for s2, e in self.instantiate_exc(s, v, fr, n):
                if isinstance(e, Exc):
                    e = e.value
                self.passed(s2, e, fr)
                out.append((s2, ('exc', e, self.loc(fr, n))))
        return out

    # An exception collects the frames it passes: where it is raised by value, and every call it leaves. A bare `raise`,
    # the end of a `finally` and of a context manager pass it on without a new frame.
    def passed(self, st, e, fr):
        if self.policy.tracebacks:
            st.counters[('tb', e)] = (fr.stack[-1][:2],) + (st.counters.get(('tb', e)) or ())

    def get_tb(self, st, e):
        frames = st.counters.get(('tb', e)) or ()
        return Sym(('tb', e, frames), {'object', 'notnone'}) if frames else NONE

    def set_tb(self, st, e, tb):
        if self.policy.tracebacks:
            st.counters[('tb', e)] = () if tb == NONE else tb.name[2] if isinstance(tb, Sym) and tb.name[0] == 'tb' and isinstance(tb.name[-1], tuple) else (('?', '?'),)

    def instantiate_exc(self, st, v, fr, n):
        if isinstance(v, ExtV) or (isinstance(v, Ref) and st.obj(v).kind == 'class'):
            return self.call(st, v, Pack(), fr, n)
        return [(st, v)]

    def s_Try(self, n, st, fr):
        depth = len(st.excs)
        res = []
        for s, o in self.block(n.body, st, fr):
            if o is not None and o[0] == 'exc':
                res.extend(self.handle(n.handlers, s, o, fr))
            elif o is None:
                res.extend(self.block(n.orelse, s, fr))
            else:
                res.append((s, o))
        if not n.finalbody:
            return res
        out = []
        for s, o in res:
            if o is not None and o[0] == 'dead':
                out.append((s, o))
                continue
            if o is not None and o[0] == 'exc':
                s.excs = s.excs + (o[1],)
            for s2, o2 in self.block(n.finalbody, s, fr):
                s2.excs = s2.excs[:depth]
                out.append((s2, o if o2 is None else o2))
        return out

    s_TryStar = s_Try

    def handle(self, handlers, st, o, fr):
        exc = o[1]
        out = []
        cur = [st]
        for h in handlers:
            nxt = []
            for s in cur:
                if h.type is None:
                    out.extend(self.run_handler(h, s, exc, fr))
                    continue
                for s2, t in self.ev(h.type, s, fr):
                    if isinstance(t, Exc):
                        out.append((s2, ('exc', t.value, t.loc)))
                        continue
                    for s3, m in self.exc_match(s2, exc, t):
                        if m:
                            out.extend(self.run_handler(h, s3, exc, fr))
                        else:
                            nxt.append(s3)
            cur = nxt
        out.extend((s, o) for s in cur)
        return out

    def run_handler(self, h, st, exc, fr):
        depth = len(st.excs)
        st.excs = st.excs + (exc,)
        if h.name:
            self.store_name(h.name, exc, st, fr)
        out = []
        for s, o in self.block(h.body, st, fr):
            s.excs = s.excs[:depth]
            out.append((s, o))
        return out

    def s_With(self, n, st, fr):
        return self.with_items(n.items, n.body, st, fr, n)

    s_AsyncWith = s_With

    def with_items(self, items, body, st, fr, n):
        if not items:
            return self.block(body, st, fr)
        it = items[0]
        out = []
        for s, cm in self.ev(it.context_expr, st, fr):
            if isinstance(cm, Exc):
                out.append((s, ('exc', cm.value, cm.loc or self.loc(fr, n))))
                continue

            def inner(s2, v):
                res = []
                if it.optional_vars is not None:
                    for s3, r in self.assign(it.optional_vars, v, s2, fr):
                        if isinstance(r, Exc):
                            res.append((s3, ('exc', r.value, r.loc)))
                        else:
                            res.extend(self.with_items(items[1:], body, s3, fr, n))
                    return res
                return self.with_items(items[1:], body, s2, fr, n)
            out.extend(self.with_cm(cm, inner, s, fr, n))
        return out

    def with_cm(self, cm, inner, st, fr, n):
        # generator based context managers
        if isinstance(cm, Ref):
            o = st.obj(cm)
            if o.kind == 'gencm':
                return self.run_gencm(o, inner, st, fr, n)
            if o.kind == 'suppress':
                out = []
                for s, oc in inner(st, NONE):
                    if oc is not None and oc[0] == 'exc':
                        cur = [s]
                        for t in o.items:
                            nxt = []
                            for c in cur:
                                for s2, m in self.exc_match(c, oc[1], t):
                                    if m:
                                        out.append((s2, None))
                                    else:
                                        nxt.append(s2)
                            cur = nxt
                        out.extend((c, oc) for c in cur)
                    else:
                        out.append((s, oc))
                return out
        out = []
        aw = isinstance(n, ast.AsyncWith)
        for s, ent in self.getattr(st, cm, '__aenter__' if aw else '__enter__', fr, n):
            if isinstance(ent, Exc):
                out.append((s, ('exc', ent.value, ent.loc)))
                continue
            res = self.call(s, ent, Pack(), fr, n)
            if aw:
                res = self.map(res, lambda s2, v: self.await_(s2, v, fr, n))
            for s2, v in res:
                if isinstance(v, Exc):
                    out.append((s2, ('exc', v.value, v.loc or self.loc(fr, n))))
                    continue
                for s3, oc in inner(s2, v):
                    if oc is not None and oc[0] == 'dead':
                        out.append((s3, oc))
                        continue
                    isexc = oc is not None and oc[0] == 'exc'
                    if isexc:
                        args = (self.typeof(s3, oc[1]), oc[1], self.get_tb(s3, oc[1]) if self.policy.tracebacks else Sym(('tb', n.lineno, s3.count('tb')), {'object'}))
                        depth = len(s3.excs)
                        s3.excs = s3.excs + (oc[1],)
                    else:
                        args = (NONE, NONE, NONE)
                    for s4, ex in self.getattr(s3, cm, '__aexit__' if aw else '__exit__', fr, n):
                        r4 = self.call(s4, ex, Pack(args), fr, n)
                        if aw:
                            r4 = self.map(r4, lambda s5, v5: self.await_(s5, v5, fr, n))
                        for s5, r in r4:
                            if isexc:
                                s5.excs = s5.excs[:depth]
                            if isinstance(r, Exc):
                                out.append((s5, ('exc', r.value, r.loc or self.loc(fr, n))))
                            elif isexc:
                                for s6, b in self.truth(s5, r, fr, n):
                                    if isinstance(b, Exc):
                                        out.append((s6, ('exc', b.value, b.loc)))
                                    else:
                                        out.append((s6, None if b else oc))
                            else:
                                out.append((s5, oc))
        return out

    def run_gencm(self, o, inner, st, fr, n):
        func, pack = o.meta['func'], o.meta['pack']
        out = []
        fo = st.obj(func)
        for s, fr2 in self.enter_function(st, func, pack, fr, n):
            if isinstance(fr2, Exc):
                out.append((s, ('exc', fr2.value, fr2.loc)))
                continue
            fr2.cm_body = inner
            for s2, oc in self.block(fo.meta['node'].body, s, fr2):
                pend = s2.counters.pop(('pending', id(fr2)), None)
                if oc is not None and oc[0] in ('exc', 'dead'):
                    out.append((s2, oc))
                else:
                    out.append((s2, pend))
        return out

    def s_FunctionDef(self, n, st, fr):
        def bind(s, f):
            self.store_name(n.name, f, s, fr)
            return [(s, NONE)]
        res = self.evs(n.decorator_list, st, fr)
        out = self.map(res, lambda s, decs: self.map(self.make_function(n, s, fr), lambda s2, f: self.map(self.apply_decs(list(decs.items), f, s2, fr, n), bind)))
        return self.lift(out, fr, n)

    s_AsyncFunctionDef = s_FunctionDef

    def apply_decs(self, decs, f, st, fr, n):
        res = [(st, f)]
        for d in reversed(decs):
            res = self.map(res, lambda s, v, d=d: self.call(s, d, Pack((v,)), fr, n))
        return res

    def make_function(self, n, st, fr):
        a = n.args
        defaults = list(a.defaults) + [d for d in a.kw_defaults if d is not None]

        def k(s, dv):
            vals = list(dv.items)
            pos = vals[:len(a.defaults)]
            kws = {}
            i = len(a.defaults)
            for arg, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kws[arg.arg] = vals[i]
                    i += 1
            name = getattr(n, 'name', '<lambda>')
            if fr.classenv is not None:
                qual = fr.stack[-1][0] + '.' + name
            elif fr.func is not None:
                qual = fr.stack[-1][0] + '.<locals>.' + name
            else:
                qual = name
            f = self.alloc(s, Obj('func', attrs={}, meta={
                'node': n, 'module': fr.module, 'env': fr.env if fr.env is not fr.module else None, 'defaults': pos, 'kwdefaults': kws,
                'name': name, 'qual': qual, 'cls': None, 'async': isinstance(n, ast.AsyncFunctionDef), 'file': fr.file,
                'modname': s.obj(fr.module).meta.get('name')}))
            return [(s, f)]
        return self.map(self.evs(defaults, st, fr), k)

    def s_ClassDef(self, n, st, fr):
        def k(s, vals):
            bases = vals.items[:len(n.bases)]
            decs = vals.items[len(n.bases):]
            inside = getattr(fr, 'classenv', None) is not None
            qual = fr.stack[-1][0] + '.' + n.name if inside else n.name if fr.func is None else fr.stack[-1][0] + '.<locals>.' + n.name
            cls = self.alloc(s, Obj('class', attrs={'__name__': Const(n.name), '__qualname__': Const(qual), '__module__': Const(s.obj(fr.module).meta.get('name'))}, meta={
                'name': n.name, 'bases': tuple(bases), 'module': fr.module, 'qual': qual, 'file': fr.file, 'node': n, 'ann': []}))
            fr2 = Frame(fr.env, fr.module, fr.func, cls, fr.stack[:-1] + ((qual, fr.file, n.lineno),), fr.file)
            fr2.classenv = cls
            out = []
            for s2, o in self.block(n.body, s, fr2):
                if o is not None and o[0] == 'exc':
                    out.append((s2, Exc(o[1], o[2])))
                    continue
                for a, v in list(s2.obj(cls).attrs.items()):
                    f = v.func if isinstance(v, WrapV) else v
                    if isinstance(f, Ref) and s2.obj(f).kind == 'func' and s2.obj(f).meta['cls'] is None and s2.obj(f).meta['qual'].startswith(qual + '.'):
                        fo = s2.mut(f)
                        fo.meta = dict(fo.meta)
                        fo.meta['cls'] = cls
                        w = fo.attrs.get('__closure_func__')
                ann = [(b.target.id, b.value) for b in n.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
                co = s2.mut(cls)
                co.meta = dict(co.meta)
                co.meta['ann'] = ann
                out.extend(self.apply_decs(list(decs), cls, s2, fr, n))
            return self.map(out, lambda s3, v: (self.store_name(n.name, v, s3, fr), [(s3, NONE)])[1])
        return self.lift(self.map(self.evs(list(n.bases) + list(n.decorator_list), st, fr), k), fr, n)

    def s_Import(self, n, st, fr):
        for a in n.names:
            st, m = self.import_name(st, a.name)
            if isinstance(m, Exc):
                return [(st, ('exc', m.value, self.loc(fr, n)))]
            if a.asname:
                self.store_name(a.asname, m, st, fr)
            else:
                top = a.name.split('.')[0]
                st, t = self.import_name(st, top)
                self.store_name(top, t, st, fr)
        return [(st, None)]

    def s_ImportFrom(self, n, st, fr):
        base = n.module or ''
        if n.level:
            cur = st.obj(fr.module).meta['name']
            path, ispkg = self.path_of(cur)
            parts = cur.split('.')
            drop = n.level - (1 if ispkg else 0)
            parts = parts[:len(parts) - drop] if drop else parts
            base = '.'.join(parts + ([n.module] if n.module else []))
        st, m = self.import_name(st, base)
        if isinstance(m, Exc):
            return [(st, ('exc', m.value, self.loc(fr, n)))]
        for a in n.names:
            if a.name == '*':
                if isinstance(m, Ref):
                    for k, v in list(st.obj(m).attrs.items()):
                        if not k.startswith('_'):
                            self.store_name(k, v, st, fr)
                continue
            if isinstance(m, Ref):
                v = st.obj(m).attrs.get(a.name)
                if v is None:
                    p, ispkg = self.path_of(base + '.' + a.name)
                    if ispkg is not None:
                        st, v = self.load_module(st, base + '.' + a.name)
                        if isinstance(v, Exc):
                            return [(st, ('exc', v.value, self.loc(fr, n)))]
                    else:
                        return [(st, ('exc', self.make_exc(st, 'ImportError', a.name), self.loc(fr, n)))]
            else:
                v = self.ext_attr(m.name, a.name)
            self.store_name(a.asname or a.name, v, st, fr)
        return [(st, None)]

    def ext_attr(self, base, name):
        if base == 'builtins':
            return ExtV('builtins.' + name)
        return ExtV(CANON.get(base + '.' + name, base + '.' + name))

    def s_Match(self, n, st, fr):
        out = []
        for s, v in self.ev(n.subject, st, fr):
            if isinstance(v, Exc):
                out.append((s, ('exc', v.value, v.loc)))
                continue
            cur = [s]
            for c in n.cases:
                nxt = []
                for s2 in cur:
                    for s3, m in self.match_pattern(c.pattern, v, s2, fr):
                        if not m:
                            nxt.append(s3)
                            continue
                        if c.guard is not None:
                            for s4, b in self.cond(c.guard, s3, fr):
                                if isinstance(b, Exc):
                                    out.append((s4, ('exc', b.value, b.loc)))
                                elif b:
                                    out.extend(self.block(c.body, s4, fr))
                                else:
                                    nxt.append(s4)
                        else:
                            out.extend(self.block(c.body, s3, fr))
                cur = nxt
            out.extend((s2, None) for s2 in cur)
        return out

    def match_pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchAs):
            res = [(st, True)] if p.pattern is None else self.match_pattern(p.pattern, v, st, fr)
            if p.name:
                for s, m in res:
                    if m:
                        self.store_name(p.name, v, s, fr)
            return res
        if isinstance(p, ast.MatchValue):
            out = []
            for s, w in self.ev(p.value, st, fr):
                out.extend(self.compare(s, '==', v, w, fr, p))
            return [(s, b.v if isinstance(b, Const) else bool(b)) for s, b in out]
        if isinstance(p, ast.MatchSingleton):
            return [(s, b.v) for s, b in self.compare(st, 'is', v, Const(p.value), fr, p)]
        if isinstance(p, ast.MatchOr):
            out = []
            cur = [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, m in self.match_pattern(q, v, s, fr):
                        (out if m else nxt).append((s2, True) if m else s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchClass) and not p.kwd_patterns and not p.patterns:
            out = []
            for s, c in self.ev(p.cls, st, fr):
                out.extend(self.isinstance_(s, v, c))
            return out
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, TupleV) and not any(isinstance(x, StarV) for x in v.items) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(v.items) != len(p.patterns):
                    return [(st, False)]
                res = [(st, True)]
                for q, x in zip(p.patterns, v.items):
                    nres = []
                    for s, m in res:
                        nres.extend(self.match_pattern(q, x, s, fr) if m else [(s, False)])
                    res = nres
                return res
        raise AnalysisError('unsupported pattern at %s' % (self.loc(fr, p),))


CANON = {
    'collections.abc.Iterable': 'collections.abc.Iterable',
    '_thread.allocate_lock': 'threading.Lock', '_thread.RLock': 'threading.RLock', '_thread.lock': 'threading.Lock',
    'multiprocessing.Lock': 'threading.Lock', 'multiprocessing.RLock': 'threading.RLock',
    'queue.SimpleQueue': 'queue.SimpleQueue', 'io.open': 'builtins.open',
    'asyncio.iscoroutinefunction': 'inspect.iscoroutinefunction',
    '_queue.Empty': 'queue.Empty', 'sys.exception': 'sys.exception',
}
