"""Models of builtins and of the parts of the standard library the package uses."""
import ast

from .values import *
from .exprs import braces

RESULT_TAGS = {
    'time.time': {'float'}, 'time.monotonic': {'float'}, 'time.perf_counter': {'float'},
    'queue.Queue.empty': {'bool'}, 'queue.Queue.full': {'bool'}, 'queue.Queue.qsize': {'int', 'nonneg'},
    'os.path.exists': {'bool'}, 'os.path.isfile': {'bool'}, 'os.path.isdir': {'bool'}, 'os.path.getsize': {'int', 'nonneg'},
    'os.path.join': {'str'}, 'os.path.dirname': {'str'}, 'os.path.basename': {'str'}, 'os.path.abspath': {'str'},
    'os.getpid': {'int'}, 'builtins.hash': {'int'}, 'builtins.abs': {'int'}, 'builtins.round': {'int'},
    'threading.get_ident': {'int'}, 'threading.Event.is_set': {'bool'}, 'threading.Thread.is_alive': {'bool'},
    'datetime.datetime.fromtimestamp': {'notnone', 'truthy'}, 'datetime.datetime.now': {'notnone', 'truthy'}, 'traceback.format_tb': {'list'},
    'os.stat': {'notnone'}, 'uuid.uuid4': {'notnone'}, 'json.dumps': {'str'}, 'platform.system': {'str'},
    'traceback.format_exception': {'list'},
}
BOOL_STR = {'startswith', 'endswith', 'isidentifier', 'isdigit', 'isalpha', 'isnumeric', 'isdecimal', 'isupper', 'islower', 'isspace', 'isalnum', 'istitle', 'isprintable', 'isascii'}
STR_STR = {'strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper', 'title', 'capitalize', 'zfill', 'ljust', 'rjust', 'center', 'removeprefix',
           'removesuffix', 'casefold', 'swapcase', 'expandtabs', 'translate', 'format', 'format_map'}
LOCKS = {'threading.Lock': False, 'threading.RLock': True, 'threading.Semaphore': False, 'threading.BoundedSemaphore': False, 'threading.Condition': True}
KINDNO = {'po': 0, 'pk': 1, 'vp': 2, 'ko': 3, 'vk': 4}


EXIT_STACK = ast.parse('''
class ExitStack:
    def __init__(self):
        self.calls = []

    def __enter__(self):
        return self

    def push(self, item):
        self.calls.append(item.__exit__ if hasattr(item, '__exit__') else item)
        return item

    def callback(self, function, *args, **kwargs):
        def run(kind, value, trace):
            function(*args, **kwargs)
            return False
        self.calls.append(run)
        return function

    def enter_context(self, manager):
        result = manager.__enter__()
        self.calls.append(manager.__exit__)
        return result

    def pop_all(self):
        other = type(self)()
        other.calls = self.calls
        self.calls = []
        return other

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, kind, value, trace):
        current = value
        while self.calls:
            call = self.calls.pop()
            try:
                if call(None if current is None else type(current), current, None if current is None else trace):
                    current = None
            except BaseException as e:
                current = e
        if current is None:
            return value is not None
        if current is value:
            return False
        raise current
''').body


class ModelMixin:
    # ------------------------------------------------------------ attributes of builtin objects
    def builtin_getattr(self, st, v, o, name, fr, n):
        k = o.kind
        if name == '__class__':
            return [(st, self.typeof(st, v))]
        if k in ('list', 'dict', 'set', 'view'):
            t = {'list': list, 'dict': dict, 'set': set, 'view': type({}.items())}[k]
            if hasattr(t, name) or o.meta.get('deque') and name in ('popleft', 'appendleft', 'extendleft', 'rotate'):
                return [(st, MethV(v, name))]
            return [self.raise_(st, 'AttributeError', name)]
        if k == 'ext':
            if name in o.attrs:
                return [(st, self.policy.load(self, st, v, name, o.attrs[name]))]
            real = self.real_ext(o.cls.name) if isinstance(o.cls, ExtV) else None
            if isinstance(real, type) and hasattr(real, name):
                if callable(getattr(real, name)):
                    return [(st, MethV(v, name))]
            return [(st, MethV(v, name) if real is None or o.meta.get('callable_attrs') else Sym(('attr', v, name)))]
        if k == 'partial':
            if name == 'func':
                return [(st, o.meta['func'])]
            return [(st, Sym(('attr', v, name)))]
        if name in o.attrs and k == 'ctxvar':
            return [self.raise_(st, 'AttributeError', name)]
        return [(st, MethV(v, name))]

    def ext_contains(self, st, v, item):
        return self.decide(st, ('in', item, v))

    def ext_getitem(self, st, v, k, fr, n):
        return self.opaque_call(st, MethV(v, '__getitem__'), Pack((k,)), fr, n)

    def ext_setitem(self, st, v, k, val, fr, n):
        return self.opaque_call(st, MethV(v, '__setitem__'), Pack((k, val)), fr, n)

    def ext_iter(self, st, v, fr, n):
        return self.iter_values(st, Sym(('iter', v)), fr, n)

    def view_pairs(self, st, v):
        o = st.obj(v)
        d, what = o.meta['dict'], o.meta['what']
        out = []
        for s, ps in self.dict_pairs(st, d):
            out.append((s, [TupleV(p) if what == 'items' else p[0] if what == 'keys' else p[1] for p in ps]))
        return out

    # ------------------------------------------------------------ method calls
    def meth_call(self, st, m, pack, fr, n):
        b, name = m.base, m.name
        if name == 'with_traceback' and len(pack.pos) == 1 and (isinstance(b, Sym) or isinstance(b, Ref) and st.obj(b).kind == 'inst'):
            self.set_tb(st, b, pack.pos[0])
            return [(st, b)]
        if isinstance(b, Const):
            if isinstance(b.v, str):
                return self.str_method(st, m, pack, fr, n)
            if all(isinstance(x, Const) for x in pack.pos) and not pack.kw:
                try:
                    return [(st, Const(getattr(b.v, name)(*[x.v for x in pack.pos])))]
                except Exception as e:
                    return [self.raise_(st, type(e).__name__, str(e))]
            return self.opaque_call(st, m, pack, fr, n)
        if isinstance(b, Sym):
            if self.sym_type(st, b) == 'str':
                return self.str_method(st, m, pack, fr, n)
            if self.sym_type(st, b) in ('dict', 'list', 'tuple', 'set'):
                return self.sym_container(st, m, pack, fr, n)
            return self.opaque_call(st, m, pack, fr, n)
        if isinstance(b, TupleV):
            return self.list_method(st, m, list(b.items), None, pack, fr, n)
        if isinstance(b, WrapV):
            if b.kind == 'property':
                if name == 'setter':
                    st.counters[('setter', b.func)] = pack.pos[0]
                return [(st, b)]
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == 'list':
                return self.list_method(st, m, o.items, b, pack, fr, n)
            if o.kind == 'dict':
                return self.dict_method(st, m, b, o, pack, fr, n)
            if o.kind == 'set':
                return self.set_method(st, m, b, o, pack, fr, n)
            if o.kind == 'view':
                return [(st, b)]
            if o.kind == 'lock':
                return self.lock_method(st, b, o, name, pack, fr, n)
            if o.kind == 'ctxvar':
                return self.ctx_method(st, b, o, name, pack, fr, n)
            if o.kind == 'gen':
                if name == '__next__':
                    return self.gen_next(st, b, fr, n)
                if name in ('__iter__',):
                    return [(st, b)]
                return [(st, NONE)]
            if o.kind == 'func' and name == '__get__':
                return [(st, BoundV(b, pack.pos[0]) if pack.pos and pack.pos[0] != NONE else b)]
            if o.kind == 'inst':
                r = self.object_method(st, b, name, pack, fr, n)
                if r is not None:
                    return r
            return self.opaque_call(st, m, pack, fr, n, tags=RESULT_TAGS.get(self.callee_name(st, m), ()))
        return self.opaque_call(st, m, pack, fr, n)

    def object_method(self, st, b, name, pack, fr, n):
        if name in ('__init__', '__init_subclass__'):
            return [(st, NONE)]
        if name == '__str__' or name == '__repr__':
            return [(st, Sym((name, b), {'str'}))]
        if name == '__hash__':
            return [(st, Sym(('hash', b), {'int'}))]
        if name in ('__eq__', '__ne__'):
            return [(s, boolv(r == (name == '__eq__'))) for s, r in self.same(st, b, pack.pos[0])]
        if name == '__getattribute__':
            return self.getattr(st, b, pack.pos[0].v, fr, n, raw=True)
        if name == '__setattr__':
            return self.setattr(st, b, pack.pos[0].v, pack.pos[1], fr, n, raw=True)
        if name == '__delattr__':
            return self.delattr(st, b, pack.pos[0].v, fr, n)
        if name == '__dir__':
            return self.dir_(st, b)
        return None

    def str_method(self, st, m, pack, fr, n):
        b, name = m.base, m.name
        args = pack.pos
        if name == 'join' and args:
            return self.map(self.iter_or_star(st, args[0], fr, n), lambda s, xs: self.join(s, b, xs, fr, n))
        if isinstance(b, Const) and all(isinstance(x, Const) for x in args) and all(isinstance(x, Const) for x in pack.kw.values()):
            try:
                r = getattr(b.v, name)(*[x.v for x in args], **{k: x.v for k, x in pack.kw.items()})
            except Exception as e:
                return [self.raise_(st, type(e).__name__, str(e))]
            if isinstance(r, list):
                return [(st, self.alloc(st, Obj('list', items=[Const(x) for x in r])))]
            if isinstance(r, tuple):
                return [(st, TupleV([Const(x) for x in r]))]
            return [(st, Const(r))]
        if name == 'format' and isinstance(b, Const) and not pack.dstar and not any(isinstance(x, StarV) for x in args):
            parts = braces(b.v, args, pack.kw)
            if parts is not None:
                return self.template(st, parts, fr, n)
        if name in ('startswith', 'endswith') and args and isinstance(args[0], TupleV):
            pass
        key = ('strm', name, b) + tuple(args)
        if name in BOOL_STR:
            if isinstance(b, Sym):
                for k, val in st.facts.items():
                    if k[0] == 'eq' and val and k[1] == b and isinstance(k[2], Const) and all(isinstance(x, Const) for x in args):
                        return [(st, Const(getattr(k[2].v, name)(*[x.v for x in args])))]
            return [(s, boolv(r)) for s, r in self.decide(st, key)]
        if name in STR_STR:
            return [(st, Sym(key, {'str'}))]
        if name in ('split', 'rsplit', 'splitlines'):
            return [(st, Sym(key, {'list', 'of:str'}))]
        if name in ('partition', 'rpartition'):
            return [(st, TupleV([Sym(key + (i,), {'str'}) for i in range(3)]))]
        if name in ('count', 'find', 'rfind', 'index', 'rindex', '__len__', '__hash__'):
            return [(st, Sym(key, {'int'}))]
        if name == 'encode':
            return [(st, Sym(key, {'bytes'}))]
        if name == '__contains__':
            return self.contains(st, b, args[0], fr, n)
        if name == '__eq__':
            return [(s, boolv(r)) for s, r in self.equal(st, b, args[0], fr, n)]
        if name == '__add__':
            return self.binop(ast.Add(), b, args[0], st, fr, n)
        return [(st, Sym(key))]

    def iter_or_star(self, st, v, fr, n):
        """elements without forcing the length of opaque parts"""
        if isinstance(v, TupleV):
            return [(st, list(v.items))]
        if isinstance(v, Ref) and st.obj(v).kind in ('list', 'set'):
            return [(st, list(st.obj(v).items))]
        if isinstance(v, Sym):
            return [(st, [StarV(v)])]
        return self.iter_values(st, v, fr, n)

    def join(self, st, sep, xs, fr, n):
        if any(isinstance(x, StarV) for x in xs):
            return [(st, Sym(('join', sep) + tuple(xs), {'str'}))]
        for x in xs:
            if (isinstance(x, Const) and not isinstance(x.v, str)) or isinstance(x, TupleV) or (isinstance(x, Ref)):
                return [self.raise_(st, 'TypeError', 'sequence item: expected str instance')]
        parts = []
        for i, x in enumerate(xs):
            if i:
                parts.append(sep)
            parts.append(x)
        return [(st, self.concat(parts))]

    def sym_container(self, st, m, pack, fr, n):
        b, name = m.base, m.name
        t = self.sym_type(st, b)
        a = pack.pos
        if t == 'dict':
            if name == 'get':
                out = []
                for s, r in self.decide(st, ('in', a[0], b)):
                    out.append((s, self.rest_item(s, b, a[0]) if r else (a[1] if len(a) > 1 else pack.kw.get('default', NONE))))
                return out
            if name in ('items', 'keys', 'values', 'copy'):
                d = self.alloc(st, Obj('dict', items={}, meta={'rest': b}))
                if name == 'copy':
                    return [(st, d)]
                return [(st, self.alloc(st, Obj('view', meta={'dict': d, 'what': name})))]
        if name in ('append', 'extend', 'add', 'update', 'pop', 'remove', 'clear', 'insert', 'setdefault', 'discard', 'sort', 'reverse', 'popitem'):
            self.event(st, fr, n, 'mutate', obj=b, op=name, value=a[0] if a else None)
            return [(st, NONE if name in ('append', 'extend', 'add', 'update', 'remove', 'clear', 'insert', 'discard', 'sort', 'reverse') else Sym(('res', m, st.count(('call', m)))))]
        if name == 'copy':
            return [(st, self.alloc(st, Obj(t, items=[StarV(b)])))]
        return self.opaque_call(st, m, pack, fr, n)

    def list_method(self, st, m, items, ref, pack, fr, n):
        name = m.name
        a = pack.pos

        def mut(s, op, **d):
            self.event(s, fr, n, 'mutate', obj=ref, op=op, **d)
            return s.mut(ref)
        if name == 'format' and ref is not None and st.obj(ref).meta.get('stack'):
            return self.x_traceback_format_list(st, Pack([ref]), fr, n)
        deque = ref is not None and st.obj(ref).meta.get('deque')
        if deque and name == 'popleft':
            return self.list_method(st, MethV(m.base, 'pop'), items, ref, Pack([Const(0)]), fr, n)
        if deque and name == 'appendleft':
            mut(st, 'insert', value=a[0]).items.insert(0, a[0])
            return [(st, NONE)]
        if deque and name == 'extendleft':
            def kl(s, xs):
                mut(s, 'extend').items[:0] = list(reversed(xs))
                return [(s, NONE)]
            return self.map(self.iter_values(st, a[0], fr, n), kl)
        if deque and name == 'append' and st.obj(ref).meta.get('limit') is not None and len(items) >= st.obj(ref).meta['limit'] and not any(isinstance(x, StarV) for x in items):
            o = mut(st, 'append', value=a[0])
            o.items.append(a[0])
            del o.items[:len(o.items) - o.meta['limit']]
            return [(st, NONE)]
        if name == 'append':
            mut(st, 'append', value=a[0]).items.append(a[0])
            return [(st, NONE)]
        if name == 'extend' or name == '__iadd__':
            def k(s, xs):
                mut(s, 'extend').items.extend(xs)
                return [(s, NONE)]
            return self.map(self.iter_or_star(st, a[0], fr, n), k)
        if name == 'insert':
            i = self.norm_index(a[0])
            mut(st, 'insert', value=a[1]).items.insert(i if i is not None else 0, a[1])
            return [(st, NONE)]
        if name == 'pop':
            i = self.norm_index(a[0]) if a else -1
            if i is not None and items and not any(isinstance(x, StarV) for x in items):
                if not -len(items) <= i < len(items):
                    return [self.raise_(st, 'IndexError')]
                v = mut(st, 'pop').items.pop(i)
                return [(st, v)]
            if not items:
                return [self.raise_(st, 'IndexError')]
            if i == -1 and not isinstance(items[-1], StarV):
                return [(st, mut(st, 'pop').items.pop())]
            if i == 0 and not isinstance(items[0], StarV):
                return [(st, mut(st, 'pop').items.pop(0))]

            def kp(s, xs):
                s.mut(ref).items[:] = xs
                return self.list_method(s, m, xs, ref, pack, fr, n)
            return self.map(self.concrete(st, items), kp)
        if name in ('clear',):
            mut(st, 'clear').items.clear()
            return [(st, NONE)]
        if name == 'copy':
            return [(st, self.alloc(st, Obj('list', items=list(items))))]
        if name == 'reverse':
            mut(st, 'reverse').items.reverse()
            return [(st, NONE)]
        if name == 'sort':
            mut(st, 'sort')
            return [(st, NONE)]
        if name == 'remove':
            res = [(st, 0)]
            out = []
            for i, x in enumerate(list(items)):
                nres = []
                for s, _ in res:
                    for s2, b in self.equal(s, x, a[0], fr, n):
                        if b is True:
                            del mut(s2, 'remove').items[i]
                            out.append((s2, NONE))
                        else:
                            nres.append((s2, 0))
                res = nres
            return out + [self.raise_(s, 'ValueError') for s, _ in res]
        if name in ('index', 'count'):
            if name == 'index' and not any(isinstance(x, StarV) for x in items):
                out, res = [], [st]
                for i, x in enumerate(items):
                    nres = []
                    for s in res:
                        for s2, b in self.equal(s, x, a[0], fr, n):
                            if b is True:
                                out.append((s2, Const(i)))
                            else:
                                nres.append(s2)
                    res = nres
                return out + [self.raise_(s, 'ValueError') for s in res]
            return [(st, Sym((name, self.snap(st, m.base)) + tuple(a), {'int'}))]
        if name == '__contains__':
            return self.contains(st, m.base, a[0], fr, n)
        if name == '__getitem__':
            return self.getitem(st, m.base, a[0], fr, n)
        if name == '__setitem__':
            return self.setitem(st, m.base, a[0], a[1], fr, n)
        if name == '__len__':
            return self.len_(st, m.base, fr, n)
        if name == '__iter__':
            return self.iter_(st, m.base, fr, n)
        return self.opaque_call(st, m, pack, fr, n)

    def dict_method(self, st, m, ref, o, pack, fr, n):
        name, a = m.name, pack.pos
        if name == 'get':
            d = a[1] if len(a) > 1 else NONE
            return [(s, v if v is not None else d) for s, v in self.dict_find(st, ref, a[0], fr, n)]
        if name in ('items', 'keys', 'values'):
            return [(st, self.alloc(st, Obj('view', meta={'dict': ref, 'what': name})))]
        if name == 'update':
            res = [(st, NONE)]
            if a:
                res = self.map(res, lambda s, _: self.dict_update(s, ref, a[0], fr, n))
            for k, v in pack.kw.items():
                res = self.map(res, lambda s, _, k=k, v=v: self.dict_set(s, ref, Const(k) if isinstance(k, str) else k, v, fr, n))
            for d in pack.dstar:
                res = self.map(res, lambda s, _, d=d: self.dict_update(s, ref, d, fr, n))
            return res
        if name == 'pop':
            out = []
            for s, v in self.dict_find(st, ref, a[0], fr, n):
                if v is not None:
                    self.event(s, fr, n, 'mutate', obj=ref, op='pop', key=a[0])
                    self.dict_remove(s, ref, a[0])
                    out.append((s, v))
                elif len(a) > 1:
                    out.append((s, a[1]))
                else:
                    out.append(self.raise_(s, 'KeyError', a[0]))
            return out
        if name == 'copy':
            return [(st, self.alloc(st, Obj('dict', items=dict(o.items), meta={k: v for k, v in o.meta.items() if k != 'dict_of'})))]
        if name == 'setdefault':
            out = []
            for s, v in self.dict_find(st, ref, a[0], fr, n):
                if v is not None:
                    out.append((s, v))
                else:
                    d = a[1] if len(a) > 1 else NONE
                    out.extend(self.map(self.dict_set(s, ref, a[0], d, fr, n), lambda s2, _: [(s2, d)]))
            return out
        if name == 'clear':
            self.event(st, fr, n, 'mutate', obj=ref, op='clear')
            mm = st.mut(ref)
            mm.items.clear()
            mm.meta = {k: v for k, v in mm.meta.items() if k != 'rest'}
            return [(st, NONE)]
        if name == '__contains__':
            return self.contains(st, ref, a[0], fr, n)
        if name == '__getitem__':
            return self.getitem(st, ref, a[0], fr, n)
        if name == '__setitem__':
            return self.dict_set(st, ref, a[0], a[1], fr, n)
        if name == '__delitem__':
            return self.delitem(st, ref, a[0], fr, n)
        if name == '__len__':
            return self.len_(st, ref, fr, n)
        if name == '__iter__':
            return self.iter_(st, ref, fr, n)
        if name == 'popitem':
            if o.items and o.meta.get('rest') is None:
                k = list(o.items)[-1]
                v = st.mut(ref).items.pop(k)
                return [(st, TupleV((k, v)))]
            if not o.items and o.meta.get('rest') is None:
                return [self.raise_(st, 'KeyError')]
        return self.opaque_call(st, m, pack, fr, n)

    def set_method(self, st, m, ref, o, pack, fr, n):
        name, a = m.name, pack.pos
        if name == 'add':
            def add(s, r):
                if not r.v:
                    self.event(s, fr, n, 'mutate', obj=ref, op='add', value=a[0])
                    s.mut(ref).items.append(a[0])
                return [(s, NONE)]
            return self.map(self.contains(st, ref, a[0], fr, n), add)
        if name in ('discard', 'remove'):
            out, res = [], [st]
            for x in list(o.items):
                nres = []
                for s in res:
                    for s2, b in self.equal(s, x, a[0], fr, n):
                        if b is True:
                            self.event(s2, fr, n, 'mutate', obj=ref, op=name, value=a[0])
                            s2.mut(ref).items.remove(x)
                            out.append((s2, NONE))
                        else:
                            nres.append(s2)
                res = nres
            return out + [(s, NONE) if name == 'discard' else self.raise_(s, 'KeyError') for s in res]
        if name in ('union', 'update', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'):
            def k(s, xs):
                mine = list(s.obj(ref).items)
                if name in ('union', 'update'):
                    r = mine + [x for x in xs if x not in mine]
                elif name == 'intersection':
                    r = [x for x in mine if x in xs]
                elif name == 'difference':
                    r = [x for x in mine if x not in xs]
                elif name == 'issubset':
                    return [(s, boolv(all(x in xs for x in mine)))]
                elif name == 'issuperset':
                    return [(s, boolv(all(x in mine for x in xs)))]
                elif name == 'isdisjoint':
                    return [(s, boolv(not any(x in mine for x in xs)))]
                else:
                    r = [x for x in mine if x not in xs] + [x for x in xs if x not in mine]
                if name == 'update':
                    self.event(s, fr, n, 'mutate', obj=ref, op='update')
                    s.mut(ref).items[:] = r
                    return [(s, NONE)]
                return [(s, self.alloc(s, Obj('set', items=r)))]
            return self.map(self.iter_or_star(st, a[0], fr, n), k) if a else [(st, ref)]
        if name == 'copy':
            return [(st, self.alloc(st, Obj('set', items=list(o.items))))]
        if name == 'clear':
            self.event(st, fr, n, 'mutate', obj=ref, op='clear')
            st.mut(ref).items.clear()
            return [(st, NONE)]
        if name == 'pop':
            if o.items and not isinstance(o.items[0], StarV):
                return [(st, st.mut(ref).items.pop(0))]
            return [self.raise_(st, 'KeyError')]
        if name == '__contains__':
            return self.contains(st, ref, a[0], fr, n)
        if name == '__len__':
            return self.len_(st, ref, fr, n)
        if name == '__iter__':
            return self.iter_(st, ref, fr, n)
        return self.opaque_call(st, m, pack, fr, n)

    # ------------------------------------------------------------ locks, context variables
    def lock_method(self, st, ref, o, name, pack, fr, n):
        if name in ('acquire', '__enter__'):
            h = getattr(self.policy, 'acquiring', None)
            if h is not None:
                sts = h(self, st, ref, fr, n)
                if sts is not None:
                    out = []
                    for s in sts:
                        out.extend(self.acquire(s, ref, s.obj(ref), name, pack, fr, n))
                    return out
            return self.acquire(st, ref, o, name, pack, fr, n)
        return self.unacquire(st, ref, o, name, pack, fr, n)

    def acquire(self, st, ref, o, name, pack, fr, n):
        if True:
            if ref in st.foreign:          # held by the preempted thread
                if (pack.kw.get('blocking') or (pack.pos[0] if pack.pos else TRUE)) == FALSE or pack.kw.get('timeout') is not None or len(pack.pos) > 1:
                    return [(st, FALSE)]
                st.dead = 'blocked'
                self.dead_states.append(st)
                return []
            if ref in st.locks and not o.meta.get('reentrant'):
                nb = pack.kw.get('blocking') or (pack.pos[0] if pack.pos else TRUE)
                if nb == FALSE:
                    return [(st, FALSE)]
                self.event(st, fr, n, 'deadlock', lock=ref)
                st.dead = 'deadlock'
                self.dead_states.append(st)
                return []
            self.event(st, fr, n, 'acquire', lock=ref)
            blocking = pack.kw.get('blocking') or (pack.pos[0] if pack.pos else TRUE)
            timeout = pack.kw.get('timeout') or (pack.pos[1] if len(pack.pos) > 1 else None)
            out = []
            if name == 'acquire' and (blocking == FALSE or timeout is not None):
                f = st.fork()
                self.event(f, fr, n, 'notacquired', lock=ref)
                out.append((f, FALSE))
            st.locks = st.locks + (ref,)
            return [(st, TRUE)] + out

    def unacquire(self, st, ref, o, name, pack, fr, n):
        if name in ('release', '__exit__'):
            if ref not in st.locks:
                self.event(st, fr, n, 'badrelease', lock=ref)
                return [self.raise_(st, 'RuntimeError', 'release unlocked lock')]
            l = list(st.locks)
            i = len(l) - 1 - l[::-1].index(ref)
            del l[i]
            st.locks = tuple(l)
            self.event(st, fr, n, 'release', lock=ref)
            return [(st, NONE)]
        if name == 'locked':
            if ref in st.locks:
                return [(st, TRUE)]
            return [(st, Sym(('locked', ref, st.count(('locked', ref))), {'bool'}))]
        return self.opaque_call(st, MethV(ref, name), pack, fr, n)

    def ctx_method(self, st, ref, o, name, pack, fr, n):
        if name == 'get':
            if 'value' in o.attrs:
                return [(st, o.attrs['value'])]
            if pack.pos:
                return [(st, pack.pos[0])]
            if 'default' in pack.kw:
                return [(st, pack.kw['default'])]
            if 'default' in o.meta:
                return [(st, o.meta['default'])]
            return [self.raise_(st, 'LookupError')]
        if name == 'set':
            tok = self.alloc(st, Obj('ext', cls=ExtV('contextvars.Token'), meta={'old': o.attrs.get('value')}))
            self.event(st, fr, n, 'ctxset', obj=ref, value=pack.pos[0])
            st.mut(ref).attrs['value'] = pack.pos[0]
            return [(st, tok)]
        if name == 'reset':
            old = st.obj(pack.pos[0]).meta.get('old') if isinstance(pack.pos[0], Ref) else None
            self.event(st, fr, n, 'ctxset', obj=ref, value=old)
            mm = st.mut(ref)
            if old is None:
                mm.attrs.pop('value', None)
            else:
                mm.attrs['value'] = old
            return [(st, NONE)]
        return self.opaque_call(st, MethV(ref, name), pack, fr, n)

    # ------------------------------------------------------------ helpers
    def len_(self, st, v, fr, n):
        if isinstance(v, Const):
            try:
                return [(st, Const(len(v.v)))]
            except TypeError:
                return [self.raise_(st, 'TypeError', 'no len()')]
        if isinstance(v, TupleV):
            return [(s, Const(k)) for s, k in self.total_len(st, v.items)]
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ('list', 'set'):
                return [(s, Const(k)) for s, k in self.total_len(st, o.items)]
            if o.kind == 'dict':
                rest = o.meta.get('rest')
                if rest is None:
                    return [(st, Const(len(o.items)))]
                return [(s, Const(len(ps))) for s, ps in self.dict_pairs(st, v)]
            if o.kind == 'view':
                return self.len_(st, o.meta['dict'], fr, n)
            if o.kind == 'inst':
                return self.map(self.special(st, v, '__len__', fr, n), lambda s, f: self.call(s, f, Pack(), fr, n))
            return self.opaque_call(st, MethV(v, '__len__'), Pack(), fr, n, tags={'int', 'nonneg'})
        if isinstance(v, Sym):
            if self.sym_type(st, v) == 'str':
                return [(st, Sym(('strlen', v), {'int', 'nonneg'}))]
            if st.facts.get(('none', v)) or self.sym_type(st, v) in ('int', 'float', 'NoneType'):
                return [self.raise_(st, 'TypeError', 'no len()')]
            return [(s, Const(k)) for s, k in self.sym_len(st, v)]
        return [self.raise_(st, 'TypeError', 'no len()')]

    def iter_(self, st, v, fr, n):
        if isinstance(v, Ref) and st.obj(v).kind == 'gen':
            return [(st, v)]
        if self.has_dunder(st, v, '__iter__'):
            f = self.class_lookup(st, st.obj(v).cls, '__iter__')
            return self.call(st, BoundV(f, v), Pack(), fr, n)

        def k(s, xs):
            return [(s, self.alloc(s, Obj('gen', meta={'buf': list(xs), 'pos': 0})))]
        return self.map(self.iter_or_star(st, v, fr, n), k)

    def dir_(self, st, v):
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ('inst', 'class'):
                names = set()
                cls = o.cls if o.kind == 'inst' else v
                if o.kind == 'inst':
                    names |= set(o.attrs)
                for c in (self.mro(st, cls) if isinstance(cls, Ref) else [cls]):
                    if isinstance(c, Ref):
                        names |= set(st.obj(c).attrs)
                    else:
                        r = self.real_ext(c.name)
                        if r is not None:
                            names |= set(dir(r))
                items = [Const(x) for x in sorted(names)]
                if o.meta.get('open_attrs'):
                    items.append(StarV(Sym(('dir', v), {'list', 'of:str'})))
                return [(st, self.alloc(st, Obj('list', items=items)))]
        if isinstance(v, Const):
            return [(st, self.alloc(st, Obj('list', items=[Const(x) for x in dir(v.v)])))]
        kind = {'list': list, 'dict': dict, 'set': set}.get(st.obj(v).kind) if isinstance(v, Ref) else tuple if isinstance(v, TupleV) else None
        if kind is not None and not (isinstance(v, Ref) and isinstance(st.obj(v).cls, Ref)):
            return [(st, self.alloc(st, Obj('list', items=[Const(x) for x in dir(kind)])))]
        return [(st, self.alloc(st, Obj('list', items=[StarV(Sym(('dir', v), {'list', 'of:str'}))])))]

    def signature(self, st, f, fr, n, bound=False):
        """inspect.Signature of a callable -> [(st, Ref | Exc)]"""
        shapes = None
        if isinstance(f, BoundV):
            return self.signature(st, f.func, fr, n, True)
        if isinstance(f, WrapV):
            return self.signature(st, f.func, fr, n, bound)
        if isinstance(f, Ref):
            o = st.obj(f)
            if o.kind == 'inst' and isinstance(o.cls, Ref):
                c = self.class_lookup(st, o.cls, '__call__')
                if c is None:
                    return [self.raise_(st, 'TypeError', 'not callable')]
                return self.signature(st, c, fr, n, True)
            if o.kind == 'class':
                c = self.class_lookup(st, f, '__init__')
                if c is None:
                    return [(st, self.make_signature(st, []))]
                return self.signature(st, c, fr, n, True)
            if o.kind == 'func':
                w = o.attrs.get('__wrapped__')
                if w is not None:
                    return self.signature(st, w, fr, n, bound)
                a = o.meta['node'].args
                ps = []
                nd = len(o.meta['defaults'])
                allp = [(x.arg, 'po') for x in a.posonlyargs] + [(x.arg, 'pk') for x in a.args]
                for i, (nm, kd) in enumerate(allp):
                    j = i - (len(allp) - nd)
                    ps.append((nm, kd, o.meta['defaults'][j] if j >= 0 else None))
                if bound and ps:
                    ps = ps[1:]
                if a.vararg:
                    ps.append((a.vararg.arg, 'vp', None))
                for x in a.kwonlyargs:
                    ps.append((x.arg, 'ko', o.meta['kwdefaults'].get(x.arg)))
                if a.kwarg:
                    ps.append((a.kwarg.arg, 'vk', None))
                return [(st, self.make_signature(st, ps))]
            if o.kind == 'partial':
                return self.signature(st, o.meta['func'], fr, n, bound)
        if isinstance(f, Sym):
            for t in f.tags:
                if isinstance(t, str) and t.startswith('sig:'):
                    return [(st, self.make_signature(st, self.sig_shape(t[4:])))]
            k = st.facts.get(('sig', f))
            if k is not None:
                return [(st, self.make_signature(st, self.sig_shape(k)))]
            out = []
            shapes = ['1', '0', '2', '1d', '1*', '1k']
            for i, sh in enumerate(shapes):
                s = st if i == len(shapes) - 1 else st.fork()
                s.facts[('sig', f)] = sh
                out.append((s, self.make_signature(s, self.sig_shape(sh))))
            return out
        if isinstance(f, (ExtV, MethV)):
            return [(st, self.make_signature(st, [('x', 'po', None)]))]
        return [self.raise_(st, 'TypeError', 'not callable')]

    @staticmethod
    def sig_shape(s):
        ps = []
        i = 0
        for c in s:
            if c.isdigit():
                for j in range(int(c)):
                    ps.append(('a%d' % i, 'pk', None))
                    i += 1
            elif c == 'd':
                ps.append(('d%d' % i, 'pk', NONE))
                i += 1
            elif c == '*':
                ps.append(('args', 'vp', None))
            elif c == 'k':
                ps.append(('kwargs', 'vk', None))
        return ps

    def make_signature(self, st, ps):
        items = {}
        for nm, kd, d in ps:
            attrs = {'name': Const(nm), 'kind': Const(KINDNO[kd]), 'default': d if d is not None else ExtV('inspect._empty'),
                     'empty': ExtV('inspect._empty'), 'POSITIONAL_ONLY': Const(0), 'POSITIONAL_OR_KEYWORD': Const(1), 'VAR_POSITIONAL': Const(2),
                     'KEYWORD_ONLY': Const(3), 'VAR_KEYWORD': Const(4)}
            items[Const(nm)] = self.alloc(st, Obj('ext', cls=ExtV('inspect.Parameter'), attrs=attrs))
        d = self.alloc(st, Obj('dict', items=items))
        return self.alloc(st, Obj('ext', cls=ExtV('inspect.Signature'), attrs={'parameters': d}))

    def apply_wraps(self, st, func, pack, fr, n):
        w = pack.pos[0]
        if isinstance(w, Ref) and st.obj(w).kind in ('func', 'inst'):
            res = [(st, NONE)]
            for a in ('__module__', '__name__', '__qualname__', '__doc__'):
                def k(s, _, a=a):
                    out = []
                    for s2, v in self.getattr(s, func, a, fr, n):
                        if isinstance(v, Exc):
                            out.append((s2, NONE))
                        else:
                            s2.mut(w).attrs[a] = v
                            out.append((s2, NONE))
                    return out
                res = self.map(res, k)
            out = []
            for s, _ in res:
                if isinstance(func, Ref) and s.obj(func).kind == 'func':
                    for a, v in s.obj(func).attrs.items():
                        if a != '__wrapped__' and not a.startswith('__'):
                            s.mut(w).attrs[a] = v
                s.mut(w).attrs['__wrapped__'] = func
                out.append((s, w))
            return out
        return [(st, w)]

    # ------------------------------------------------------------ builtins and stdlib
    def ext_call(self, st, f, pack, fr, n):
        name = f.name
        m = getattr(self, 'x_' + name.replace('builtins.', '').replace('.', '_'), None)
        if m is not None:
            if pack.dstar and all(s.facts.get(('len', d)) == 0 for s in (st,) for d in pack.dstar):
                pack = Pack(pack.pos, pack.kw)
            r = m(st, pack, fr, n)
            if r is not None:
                return r
        if name in LOCKS:
            return [(st, self.alloc(st, Obj('lock', cls=f, meta={'reentrant': LOCKS[name]})))]
        if self.ext_exc(f) is not None:
            return [(st, self.alloc(st, Obj('inst', cls=f, attrs={'args': TupleV(pack.pos)})))]
        if name.startswith('builtins.object.') or name.startswith('builtins.type.'):
            r = self.object_method(st, pack.pos[0], name.rsplit('.', 1)[1], Pack(pack.pos[1:], pack.kw), fr, n) if pack.pos else None
            if r is not None:
                return r
        if name.endswith('.__init__') and pack.pos:
            b = pack.pos[0]
            if isinstance(b, Ref) and self.is_exc_class(st, st.obj(b).cls):
                st.mut(b).attrs['args'] = TupleV(pack.pos[1:])
            self.event(st, fr, n, 'call', callee=f, name=name, pack=pack, raised=None, awaited=False, result=NONE)
            return [(st, NONE)]
        if name.endswith('.__new__') and pack.pos:
            return [(st, self.alloc(st, Obj('inst', cls=pack.pos[0])))]
        real = self.real_ext(name)
        if isinstance(real, type) and name not in ('builtins.type',):
            r = self.policy.result(self, st, f, name, pack)
            if r is None:
                ref = self.alloc(st, Obj('ext', cls=f, meta={'pack': pack}))
                self.opaque_seen[name] = self.opaque_seen.get(name, 0) + 1
                out = []
                cf = getattr(self.policy, 'call', None)
                if cf is not None:
                    rr = cf(self, st, f, name, pack, fr, n)
                    if rr is not None:
                        return rr
                k = st.count(('call', f))
                for ec in self.policy.may_raise(self, st, f, name, pack):
                    s = st.fork()
                    e = Sym(('exc', f, k, ec), {'exc', ec}) if ec in ('Exception', 'BaseException') else self.make_exc(s, ec)
                    self.event(s, fr, n, 'call', callee=f, name=name, pack=pack, raised=e, awaited=False, result=None)
                    out.append((s, Exc(e, self.loc(fr, n))))
                self.event(st, fr, n, 'call', callee=f, name=name, pack=pack, raised=None, awaited=False, result=ref)
                return [(st, ref)] + out
        from .interp import IMPURE
        tags = RESULT_TAGS.get(name, ())
        if name in IMPURE or self.impure(name):
            return self.opaque_call(st, f, pack, fr, n, tags=tags)
        out = []
        for s, v in self.opaque_call(st, f, pack, fr, n, tags=tags):
            if isinstance(v, Sym) and v.name[0] == 'res' and v.name[1] == f:
                args = tuple(self.snap(s, x) for x in pack.pos) + tuple(TupleV((Const(k), self.snap(s, x))) for k, x in sorted(pack.kw.items(), key=lambda z: str(z[0])))
                v2 = Sym((name,) + args + tuple(pack.dstar), tags)
                t = s.trace
                if t is not None and t[1].kind == 'call' and t[1].data.get('result') is v:
                    t[1].data['result'] = v2
                v = v2
            out.append((s, v))
        return out

    def impure(self, name):
        return name.split('.')[0] in ('os', 'shutil', 'fcntl', 'random', 'smtplib', 'atexit', 'gc', 'logging', '_thread', 'threading', 'multiprocessing', 'weakref')

    # -- builtins
    def x_len(self, st, p, fr, n):
        return self.len_(st, p.pos[0], fr, n)

    def x_isinstance(self, st, p, fr, n):
        return [(s, boolv(r)) for s, r in self.isinstance_(st, p.pos[0], p.pos[1])]

    def x_issubclass(self, st, p, fr, n):
        a, b = p.pos
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a == b:
                return [(st, TRUE)]
            if isinstance(a, Sym) and a.name[0] == 'typeof':
                return [(s, boolv(r)) for s, r in self.isinstance_(st, a.name[1], b)]
            if isinstance(b, TupleV):
                res = [(st, False)]
                for x in b.items:
                    nres = []
                    for s, r in res:
                        if r:
                            nres.append((s, r))
                        else:
                            nres.extend((s2, v.v) for s2, v in self.x_issubclass(s, Pack((a, x)), fr, n))
                    res = nres
                return [(s, boolv(r)) for s, r in res]
            if isinstance(b, ExtV) and isinstance(a, Sym):
                if b.name == 'builtins.object':
                    return [(st, TRUE)]
                if 'exc_class' in a.tags and b.name in ('builtins.BaseException',):
                    return [(st, TRUE)]
                if 'exc_class' in a.tags and b.name == 'builtins.Exception' and 'Base' not in a.tags:
                    return [(st, TRUE)]
            return [(s, boolv(r)) for s, r in self.decide(st, ('subclass', a, b))]
        ok = lambda x: isinstance(x, ExtV) or (isinstance(x, Ref) and st.obj(x).kind == 'class')
        if not ok(a):
            return [self.raise_(st, 'TypeError', 'issubclass() arg 1 must be a class')]
        return [(st, boolv(self.issubclass_(st, a, b)))]

    def x_callable(self, st, p, fr, n):
        return [(s, boolv(r)) for s, r in self.callable_(st, p.pos[0])]

    def x_hasattr(self, st, p, fr, n):
        if not isinstance(p.pos[1], Const):
            return [(s, boolv(r)) for s, r in self.decide(st, ('hasattr', p.pos[0], p.pos[1]))]
        return [(s, r if isinstance(r, Exc) else boolv(r)) for s, r in self.hasattr_(st, p.pos[0], p.pos[1].v, fr, n)]

    def x_getattr(self, st, p, fr, n):
        o, k = p.pos[0], p.pos[1]
        if not isinstance(k, Const):
            if self.has_dunder(st, o, '__getattribute__'):
                f = self.class_lookup(st, st.obj(o).cls, '__getattribute__')
                return self.call(st, BoundV(f, o), Pack((k,)), fr, n)
            f = getattr(self.policy, 'dyn_attr', None)
            if f is not None:
                r = f(self, st, o, k)
                if r is not None:
                    return r
            v = Sym(('attr', o, k), {'user'} if isinstance(o, Sym) and 'user' in o.tags else ())
            return [(st, v)]
        out = []
        for s, v in self.getattr(st, o, k.v, fr, n):
            if isinstance(v, Exc) and len(p.pos) > 2:
                for s2, m in self.exc_match(s, v.value, ExtV('builtins.AttributeError')):
                    out.append((s2, p.pos[2] if m else v))
            else:
                out.append((s, v))
        return out

    def x_setattr(self, st, p, fr, n):
        if isinstance(p.pos[1], Const):
            return self.setattr(st, p.pos[0], p.pos[1].v, p.pos[2], fr, n)
        self.event(st, fr, n, 'store', obj=p.pos[0], attr=p.pos[1], value=p.pos[2])
        return [(st, NONE)]

    def x_delattr(self, st, p, fr, n):
        return self.delattr(st, p.pos[0], p.pos[1].v, fr, n)

    def x_str(self, st, p, fr, n):
        if not p.pos:
            return [(st, Const(''))]
        return self.to_str(st, p.pos[0], fr, n)

    def x_repr(self, st, p, fr, n):
        return self.to_str(st, p.pos[0], fr, n, 'repr')

    def x_format(self, st, p, fr, n):
        if len(p.pos) == 1:
            return self.to_str(st, p.pos[0], fr, n)
        if isinstance(p.pos[1], Const) and isinstance(p.pos[1].v, str):
            return self.template(st, [(p.pos[0], 'str', p.pos[1].v)], fr, n)
        return [(st, Sym(('format',) + p.pos, {'str'}))]

    def x_bool(self, st, p, fr, n):
        if not p.pos:
            return [(st, FALSE)]
        return [(s, r if isinstance(r, Exc) else boolv(r)) for s, r in self.truth(st, p.pos[0], fr, n)]

    def num(self, st, p, fr, n, ty, name):
        if not p.pos:
            return [(st, Const(ty()))]
        v = p.pos[0]
        if isinstance(v, Const):
            try:
                return [(st, Const(ty(v.v)))]
            except Exception as e:
                return [self.raise_(st, type(e).__name__, str(e))]
        if isinstance(v, Sym):
            t = self.sym_type(st, v)
            if t == name or (name == 'int' and 'rank' in v.tags):
                return [(st, v if 'sub' not in v.tags else Sym(v.name, v.tags - {'sub'}))]
            term = Sym((name, v), {name} | (v.tags & {'nonneg'}))
            if t in ('int', 'float'):
                return [(st, term)]
            out = []
            for s, ok in self.decide(st, (name + 'ok', v)):
                out.append((s, term) if ok else self.raise_(s, 'ValueError', 'invalid literal'))
            return out
        if isinstance(v, Ref):
            return self.map(self.getattr(st, v, '__%s__' % name, fr, n), lambda s, g: self.call(s, g, Pack(), fr, n))
        return [self.raise_(st, 'TypeError')]

    def x_int(self, st, p, fr, n):
        return self.num(st, p, fr, n, int, 'int')

    def x_float(self, st, p, fr, n):
        return self.num(st, p, fr, n, float, 'float')

    def seq(self, st, p, fr, n, kind):
        if not p.pos:
            return [(st, TupleV(()) if kind == 'tuple' else self.alloc(st, Obj(kind, items=[])))]

        def k(s, xs):
            if kind == 'tuple':
                return [(s, TupleV(xs))]
            if kind == 'set':
                if any(self.unhashable(s, x) for x in xs):
                    return [self.raise_(s, 'TypeError', 'unhashable type')]
                return [(s2, self.alloc(s2, Obj(kind, items=u))) for s2, u in self.unique(s, xs, fr, n)]
            return [(s, self.alloc(s, Obj(kind, items=list(xs))))]
        v = p.pos[0]
        if kind == 'tuple' and isinstance(v, TupleV):
            return [(st, v)]
        if isinstance(v, Sym) and (self.sym_type(st, v) in ('int', 'float', 'NoneType') or st.facts.get(('none', v))):
            return [self.raise_(st, 'TypeError', 'not iterable')]
        if isinstance(v, Ref) and st.obj(v).kind in ('view', 'dict', 'list', 'set'):
            self.event(st, fr, n, 'snapshot', obj=st.obj(v).meta.get('dict', v) if st.obj(v).kind == 'view' else v)
        return self.map(self.iter_or_star(st, v, fr, n), k)

    def unhashable(self, st, v):
        """a container, or an instance of a class that defines equality but no hash"""
        if not isinstance(v, Ref):
            return False
        o = st.obj(v)
        if o.kind in ('list', 'dict', 'set'):
            return True
        if o.kind != 'inst' or not isinstance(o.cls, Ref):
            return False
        for c in self.mro(st, o.cls):
            if not isinstance(c, Ref):
                return False
            a = st.obj(c).attrs
            if '__hash__' in a:
                return a['__hash__'] == NONE
            if '__eq__' in a:
                return True
        return False

    def unique(self, st, xs, fr, n):
        """the values without those equal to an earlier one -> [(st, list)]"""
        res = [(st, [])]
        for x in xs:
            nres = []
            for s, u in res:
                if x in u:
                    nres.append((s, u))
                    continue
                todo = [s]
                for y in u:
                    if not (self.has_dunder(s, x, '__eq__') and self.has_dunder(s, y, '__eq__')):
                        continue
                    nxt = []
                    for s2 in todo:
                        for s3, b in self.equal(s2, y, x, fr, n):
                            if b is True:
                                nres.append((s3, u))
                            elif b is False:
                                nxt.append(s3)
                    todo = nxt
                nres += [(s2, u + [x]) for s2 in todo]
            res = nres
        return res

    def x_dict_fromkeys(self, st, p, fr, n):
        d = self.alloc(st, Obj('dict', items={}))
        v = p.pos[1] if len(p.pos) > 1 else NONE

        def k(s, xs):
            if any(self.unhashable(s, x) for x in xs):
                return [self.raise_(s, 'TypeError', 'unhashable type')]
            out = []
            for s2, u in self.unique(s, xs, fr, n):
                res = [(s2, NONE)]
                for x in u:
                    res = self.map(res, lambda s3, _, x=x: self.dict_set(s3, d, x, v, fr, n))
                out += self.map(res, lambda s3, _: [(s3, d)])
            return out
        return self.map(self.iter_values(st, p.pos[0], fr, n), k)

    def x_list(self, st, p, fr, n):
        return self.seq(st, p, fr, n, 'list')

    def x_tuple(self, st, p, fr, n):
        return self.seq(st, p, fr, n, 'tuple')

    def x_set(self, st, p, fr, n):
        return self.seq(st, p, fr, n, 'set')

    x_frozenset = x_set

    def x_dict(self, st, p, fr, n):
        d = self.alloc(st, Obj('dict', items={}))
        res = [(st, NONE)]
        if p.pos:
            v = p.pos[0]
            if isinstance(v, Ref) and st.obj(v).kind in ('dict', 'view'):
                self.event(st, fr, n, 'snapshot', obj=v)
            res = self.map(res, lambda s, _: self.dict_update(s, d, v, fr, n))
        for k, x in p.kw.items():
            res = self.map(res, lambda s, _, k=k, x=x: self.dict_set(s, d, Const(k) if isinstance(k, str) else k, x, fr, n))
        for x in p.dstar:
            res = self.map(res, lambda s, _, x=x: self.dict_update(s, d, x, fr, n))
        return self.map(res, lambda s, _: [(s, d)])

    x_collections_OrderedDict = x_dict

    def x_collections_defaultdict(self, st, p, fr, n):
        d = self.alloc(st, Obj('dict', items={}, meta={'factory': p.pos[0] if p.pos else None}))
        return [(st, d)]

    def x_collections_deque(self, st, p, fr, n):
        res = self.seq(st, Pack(p.pos[:1]), fr, n, 'list')
        size = p.pos[1] if len(p.pos) > 1 else p.kw.get('maxlen', NONE)
        for s, v in res:
            if isinstance(v, Ref):
                o = s.mut(v)
                o.meta = {**o.meta, 'deque': True}
                if isinstance(size, Const) and isinstance(size.v, int) and not any(isinstance(x, StarV) for x in o.items):
                    o.meta['limit'] = size.v
                    del o.items[:max(0, len(o.items) - size.v)]
        return res

    def x_sorted(self, st, p, fr, n):
        def k(s, xs):
            if all(isinstance(x, Const) for x in xs) and 'key' not in p.kw:
                try:
                    xs = [Const(x) for x in sorted((x.v for x in xs), reverse=bool(p.kw.get('reverse', FALSE).v))]
                except Exception as e:
                    return [self.raise_(s, type(e).__name__)]
            return [(s, self.alloc(s, Obj('list', items=list(xs))))]
        return self.map(self.iter_values(st, p.pos[0], fr, n), k)

    def x_reversed(self, st, p, fr, n):
        return self.map(self.iter_values(st, p.pos[0], fr, n), lambda s, xs: [(s, self.alloc(s, Obj('list', items=list(reversed(xs)))))])

    def x_enumerate(self, st, p, fr, n):
        for x in p.pos[:1]:
            self.iter_event(st, x, fr, n)
        start = p.pos[1] if len(p.pos) > 1 else p.kw.get('start', Const(0))
        return self.map(self.iter_values(st, p.pos[0], fr, n), lambda s, xs: [(s, self.alloc(s, Obj('list', items=[TupleV((Const(start.v + i), x)) for i, x in enumerate(xs)])))])

    def x_zip(self, st, p, fr, n):
        for x in p.pos:
            self.iter_event(st, x, fr, n)
        res = [(st, [])]
        for v in p.pos:
            res = [(s2, xs if isinstance(xs, Exc) else acc + [xs]) for s, acc in res if not isinstance(acc, Exc) for s2, xs in self.iter_values(s, v, fr, n)] + [(s, a) for s, a in res if isinstance(a, Exc)]
        return [(s, a if isinstance(a, Exc) else self.alloc(s, Obj('list', items=[TupleV(t) for t in zip(*a)]))) for s, a in res]

    def x_map(self, st, p, fr, n):
        for x in p.pos[1:]:
            self.iter_event(st, x, fr, n)
        f = p.pos[0]

        def k(s, xs):
            box = self.alloc(s, Obj('list', items=[]))
            res = [(s, NONE)]
            for x in xs:
                def one(s2, _, x=x):
                    def put(s3, v):
                        s3.mut(box).items.append(v)
                        return [(s3, NONE)]
                    return self.map(self.call(s2, f, Pack((x,)), fr, n), put)
                res = self.map(res, one)
            return self.map(res, lambda s2, _: [(s2, box)])
        return self.map(self.iter_values(st, p.pos[1], fr, n), k)

    def x_filter(self, st, p, fr, n):
        for x in p.pos[1:]:
            self.iter_event(st, x, fr, n)
        f = p.pos[0]

        def k(s, xs):
            box = self.alloc(s, Obj('list', items=[]))
            res = [(s, NONE)]
            for x in xs:
                def one(s2, _, x=x):
                    out = []
                    r = [(s2, x)] if f == NONE else self.call(s2, f, Pack((x,)), fr, n)
                    for s3, v in r:
                        if isinstance(v, Exc):
                            out.append((s3, v))
                            continue
                        for s4, b in self.truth(s3, v, fr, n):
                            if isinstance(b, Exc):
                                out.append((s4, b))
                                continue
                            if b:
                                s4.mut(box).items.append(x)
                            out.append((s4, NONE))
                    return out
                res = self.map(res, one)
            return self.map(res, lambda s2, _: [(s2, box)])
        return self.map(self.iter_values(st, p.pos[1], fr, n), k)

    def anyall(self, st, p, fr, n, isany):
        def k(s, xs):
            cur, out = [s], []
            for x in xs:
                nxt = []
                for c in cur:
                    for s2, b in self.truth(c, x, fr, n):
                        if isinstance(b, Exc):
                            out.append((s2, b))
                        elif b == isany:
                            out.append((s2, boolv(isany)))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(c, boolv(not isany)) for c in cur]
        return self.map(self.iter_values(st, p.pos[0], fr, n), k)

    def x_any(self, st, p, fr, n):
        return self.anyall(st, p, fr, n, True)

    def x_all(self, st, p, fr, n):
        return self.anyall(st, p, fr, n, False)

    def x_range(self, st, p, fr, n):
        if all(isinstance(x, Const) for x in p.pos):
            try:
                r = list(range(*[x.v for x in p.pos]))[:64]
            except Exception as e:
                return [self.raise_(st, type(e).__name__)]
            return [(st, self.alloc(st, Obj('list', items=[Const(i) for i in r])))]
        return [(st, Sym(('range',) + p.pos, {'list', 'of:int'}))]

    def x_iter(self, st, p, fr, n):
        return self.iter_(st, p.pos[0], fr, n)

    def x_next(self, st, p, fr, n):
        v = p.pos[0]
        if isinstance(v, Ref) and st.obj(v).kind == 'gen':
            res = self.gen_next(st, v, fr, n)
        elif self.has_dunder(st, v, '__next__'):
            res = self.call(st, BoundV(self.class_lookup(st, st.obj(v).cls, '__next__'), v), Pack(), fr, n)
        elif isinstance(v, Ref) and st.obj(v).kind == 'list':
            def k(s, xs):
                if xs:
                    s.mut(v).items[:] = xs[1:]
                    return [(s, xs[0])]
                return [self.raise_(s, 'StopIteration')]
            res = self.map(self.concrete(st, st.obj(v).items), k)
        else:
            return self.opaque_call(st, ExtV('builtins.next'), p, fr, n)
        if len(p.pos) < 2:
            return res
        out = []
        for s, r in res:
            if isinstance(r, Exc):
                for s2, m in self.exc_match(s, r.value, ExtV('builtins.StopIteration')):
                    out.append((s2, p.pos[1] if m else r))
            else:
                out.append((s, r))
        return out

    def x_type(self, st, p, fr, n):
        return [(st, self.typeof(st, p.pos[0]))]

    def x_id(self, st, p, fr, n):
        return [(st, Sym(('id', p.pos[0]), {'int'}))]

    def x_hash(self, st, p, fr, n):
        v = p.pos[0]
        if self.has_dunder(st, v, '__hash__'):
            out = []
            for o in self.call(st, BoundV(self.class_lookup(st, st.obj(v).cls, '__hash__'), v), Pack(), fr, n):
                if len(o) == 2 and isinstance(o[1], Const) and not isinstance(o[1].v, int):
                    o = self.raise_(o[0], 'TypeError', '__hash__ method should return an integer')
                out.append(o)
            return out
        return [(st, Sym(('hash', v), {'int'}))]

    def x_abs(self, st, p, fr, n):
        return [(st, Const(abs(p.pos[0].v)))] if isinstance(p.pos[0], Const) else [(st, Sym(('abs',) + p.pos, {'int', 'nonneg'}))]

    def minmax(self, st, p, fr, n, name):
        if len(p.pos) == 1:
            return self.map(self.iter_values(st, p.pos[0], fr, n), lambda s, xs: self.minmax(s, Pack(tuple(xs) if len(xs) != 1 else (xs[0], xs[0]), p.kw), fr, n, name) if xs else
                            ([(s, p.kw['default'])] if 'default' in p.kw else [self.raise_(s, 'ValueError')]))
        if all(isinstance(x, Const) for x in p.pos):
            return [(st, Const({'max': max, 'min': min}[name](x.v for x in p.pos)))]
        best = p.pos[0]
        res = [(st, best)]
        for x in p.pos[1:]:
            nres = []
            for s, b in res:
                if b == x:
                    nres.append((s, b))
                    continue
                for s2, r in self.compare(s, '>' if name == 'max' else '<', x, b, fr, n):
                    nres.append((s2, r if isinstance(r, Exc) else (x if r.v else b)))
            res = nres
        return res

    def x_max(self, st, p, fr, n):
        return self.minmax(st, p, fr, n, 'max')

    def x_min(self, st, p, fr, n):
        return self.minmax(st, p, fr, n, 'min')

    def x_sum(self, st, p, fr, n):
        def k(s, xs):
            res = [(s, p.pos[1] if len(p.pos) > 1 else Const(0))]
            for x in xs:
                res = self.map(res, lambda s2, acc, x=x: self.binop(ast.Add(), acc, x, s2, fr, n))
            return res
        return self.map(self.iter_values(st, p.pos[0], fr, n), k)

    def x_dir(self, st, p, fr, n):
        return self.dir_(st, p.pos[0])

    def x_vars(self, st, p, fr, n):
        return self.getattr(st, p.pos[0], '__dict__', fr, n)

    def x_super(self, st, p, fr, n):
        return [(st, SuperV(p.pos[0], p.pos[1]))]

    def x_property(self, st, p, fr, n):
        if len(p.pos) > 1:
            st.counters[('setter', p.pos[0])] = p.pos[1]
        return [(st, WrapV('property', p.pos[0]))]

    def x_staticmethod(self, st, p, fr, n):
        return [(st, WrapV('static', p.pos[0]))]

    def x_classmethod(self, st, p, fr, n):
        return [(st, WrapV('class', p.pos[0]))]

    def x_object(self, st, p, fr, n):
        return [(st, self.alloc(st, Obj('inst', cls=ExtV('builtins.object'))))]

    def x_object___new__(self, st, p, fr, n):
        return [(st, self.alloc(st, Obj('inst', cls=p.pos[0])))]

    def x_object___getattribute__(self, st, p, fr, n):
        if isinstance(p.pos[1], Const):
            return self.getattr(st, p.pos[0], p.pos[1].v, fr, n, raw=True)
        # an unknown name: an attribute of the object or AttributeError
        out = []
        for s, ok in self.decide(st, ('hasattr', p.pos[0], p.pos[1])):
            out.append((s, Sym(('attr', p.pos[0], p.pos[1]))) if ok else self.raise_(s, 'AttributeError', p.pos[1]))
        return out

    def x_object___setattr__(self, st, p, fr, n):
        return self.setattr(st, p.pos[0], p.pos[1].v, p.pos[2], fr, n, raw=True)

    def x_print(self, st, p, fr, n):
        self.event(st, fr, n, 'call', callee=ExtV('builtins.print'), name='builtins.print', pack=p, raised=None, awaited=False, result=NONE)
        return [(st, NONE)]

    # -- functools, contextlib, dataclasses, inspect, sys, ...
    def x_functools_wraps(self, st, p, fr, n):
        return [(st, self.alloc(st, Obj('wraps', meta={'func': p.pos[0]})))]

    def x_functools_update_wrapper(self, st, p, fr, n):
        return self.apply_wraps(st, p.pos[1], Pack((p.pos[0],)), fr, n)

    def x_functools_partial(self, st, p, fr, n):
        return [(st, self.alloc(st, Obj('partial', meta={'func': p.pos[0], 'pack': Pack(p.pos[1:], p.kw, p.dstar)})))]

    def x_functools_reduce(self, st, p, fr, n):
        f = p.pos[0]

        def k(s, xs):
            xs = list(p.pos[2:3]) + list(xs)
            if not xs:
                return [self.raise_(s, 'TypeError')]
            res = [(s, xs[0])]
            for x in xs[1:]:
                res = self.map(res, lambda s2, acc, x=x: self.call(s2, f, Pack((acc, x)), fr, n))
            return res
        return self.map(self.iter_values(st, p.pos[1], fr, n), k)

    def ident(self, st, p, fr, n):
        return [(st, p.pos[0] if p.pos else NONE)]

    x_abc_abstractmethod = ident
    x_functools_lru_cache = ident
    x_functools_cache = ident
    x_typing_cast = lambda self, st, p, fr, n: [(st, p.pos[1])]

    def x_contextlib_ExitStack(self, st, p, fr, n):
        m = self.alloc(st, Obj('module', attrs={'__name__': Const('contextlib')}, meta={'name': 'contextlib', 'file': None}))
        fr2 = type(fr)(m, m, None, None, (('<module contextlib>', 'contextlib.py', 0),), 'contextlib.py')
        out = []
        for s, o in self.block(EXIT_STACK, st, fr2):
            out.extend(self.call(s, s.obj(m).attrs['ExitStack'], Pack(), fr, n))
        return out

    def x_contextlib_suppress(self, st, p, fr, n):
        return [(st, self.alloc(st, Obj('suppress', items=list(p.pos))))]

    def x_contextlib_contextmanager(self, st, p, fr, n):
        return [(st, self.alloc(st, Obj('gencmf', meta={'func': p.pos[0]})))]

    def x_dataclasses_dataclass(self, st, p, fr, n):
        if p.pos and isinstance(p.pos[0], Ref):
            m = st.mut(p.pos[0])
            m.meta = dict(m.meta)
            m.meta['dataclass'] = True
            return [(st, p.pos[0])]
        return [(st, ExtV('dataclasses.dataclass'))]

    def synthetic(self, st, src, name, fr):
        """a class of the standard library written out -> its value"""
        from .interp import Frame
        m = self.alloc(st, Obj('module', attrs={'__name__': Const('synthetic')}, meta={'name': 'synthetic', 'file': None}))
        f2 = Frame(m, m, None, None, fr.stack, 'synthetic')
        out = []
        for s, o in self.block(ast.parse(src).body, st, f2):
            out.append((s, s.obj(m).attrs[name]))
        return out

    def x_collections_namedtuple(self, st, p, fr, n):
        name, fields = p.pos[0], (p.pos[1] if len(p.pos) > 1 else p.kw.get('field_names'))
        fs = None
        if isinstance(fields, Const) and isinstance(fields.v, str):
            fs = fields.v.replace(',', ' ').split()
        elif isinstance(fields, TupleV):
            fs = list(fields.items)
        elif isinstance(fields, Ref) and st.obj(fields).kind == 'list':
            fs = list(st.obj(fields).items)
        if fs is not None:
            fs = [x.v if isinstance(x, Const) else x for x in fs]
        if not isinstance(name, Const) or not fs or not all(isinstance(x, str) and x.isidentifier() for x in fs) or set(p.kw) - {'field_names'}:
            return self.opaque_call(st, ExtV('collections.namedtuple'), p, fr, n)
        return self.named_class(st, name.v, fs, fr)

    def named_class(self, st, name, fs, fr):
        tup = '(' + ''.join('self.%s, ' % f for f in fs) + ')'
        src = ('class %s:\n    _fields = %r\n    def __init__(self, %s):\n        %s\n' % (name, tuple(fs), ', '.join(fs), '\n        '.join('self.%s = %s' % (f, f) for f in fs))
               + '    def __iter__(self):\n        return iter(%s)\n    def __getitem__(self, i):\n        return %s[i]\n    def __len__(self):\n        return %d\n' % (tup, tup, len(fs))
               + '    def __eq__(self, o):\n        return %s == tuple(o)\n    def __hash__(self):\n        return hash(%s)\n    def _replace(self, **kw):\n        return type(self)(**{**self._asdict(), **kw})\n' % (tup, tup)
               + '    def _asdict(self):\n        return {%s}\n' % ', '.join('%r: self.%s' % (f, f) for f in fs))
        return self.synthetic(st, src, name, fr)

    def x_inspect_iscoroutinefunction(self, st, p, fr, n):
        v = p.pos[0]
        while isinstance(v, BoundV):
            v = v.func
        if isinstance(v, Ref):
            o = st.obj(v)
            return [(st, boolv(o.kind == 'func' and o.meta['async'] and not self.is_gen(o.meta['node'])))]
        if isinstance(v, Sym):
            if 'asyncfn' in v.tags:
                return [(st, TRUE)]
            if 'syncfn' in v.tags or v.tags & {'exc_class', 'type'}:
                return [(st, FALSE)]
            if self.sym_type(st, v) not in (None, 'function'):
                return [(st, FALSE)]
            return [(s, boolv(r)) for s, r in self.decide(st, ('isasync', v))]
        return [(st, FALSE)]

    def x_inspect_isclass(self, st, p, fr, n):
        return [(s, boolv(r)) for s, r in self.isinstance_(st, p.pos[0], ExtV('builtins.type'))]

    def x_inspect_ismodule(self, st, p, fr, n):
        v = p.pos[0]
        if isinstance(v, ExtV):
            import types
            return [(st, boolv(isinstance(self.real_ext(v.name), types.ModuleType)))]
        return [(s, boolv(r)) for s, r in self.isinstance_(st, v, ExtV('types.ModuleType'))]

    def x_inspect_isroutine(self, st, p, fr, n):
        v = p.pos[0]
        if isinstance(v, Ref):
            return [(st, boolv(st.obj(v).kind == 'func'))]
        if isinstance(v, (BoundV, MethV)):
            return [(st, TRUE)]
        if isinstance(v, Sym):
            if v.tags & {'asyncfn', 'syncfn', 'function'}:
                return [(st, TRUE)]
            if v.tags & {'str', 'int', 'float', 'bool'}:
                return [(st, FALSE)]
            out = []
            for s, r in self.decide(st, ('isroutine', v)):
                if r:
                    s.facts[('callable', v)] = True
                out.append((s, boolv(r)))
            return out
        if isinstance(v, ExtV):
            import inspect
            return [(st, boolv(inspect.isroutine(self.real_ext(v.name))))]
        return [(st, FALSE)]

    x_inspect_isfunction = x_inspect_isroutine

    def x_inspect_getattr_static(self, st, p, fr, n):
        c, k = p.pos[0], p.pos[1]
        if isinstance(c, Ref) and isinstance(k, Const):
            o = st.obj(c)
            v = self.class_lookup(st, c, k.v) if o.kind == 'class' else (o.attrs.get(k.v) or self.class_lookup(st, o.cls, k.v))
            if v is not None:
                return [(st, v)]
            if len(p.pos) > 2:
                return [(st, p.pos[2])]
            return [self.raise_(st, 'AttributeError', k.v)]
        f = getattr(self.policy, 'static_attr', None)
        if f is not None:
            r = f(self, st, c, k)
            if r is not None:
                return r
        return [(st, Sym(('static', c, k), {'user'}))]

    def x_inspect_Signature_from_callable(self, st, p, fr, n):
        return self.signature(st, p.pos[0], fr, n)

    x_inspect_signature = x_inspect_Signature_from_callable

    def x_sys_exc_info(self, st, p, fr, n):
        if st.excs:
            e = st.excs[-1]
            return [(st, TupleV((self.typeof(st, e), e, self.get_tb(st, e) if self.policy.tracebacks else Sym(('tb', e), {'object'}))))]
        return [(st, TupleV((NONE, NONE, NONE)))]

    def x_BaseException_with_traceback(self, st, p, fr, n):
        self.set_tb(st, p.pos[0], p.pos[1])
        return [(st, p.pos[0])]

    x_Exception_with_traceback = x_BaseException_with_traceback

    def x_traceback_format_tb(self, st, p, fr, n):
        tb = p.pos[0] if p.pos else None
        if self.policy.tracebacks and len(p.pos) == 1 and not p.kw and isinstance(tb, Sym) and tb.name[0] == 'tb' and isinstance(tb.name[-1], tuple):
            return [(st, self.alloc(st, Obj('list', items=[Sym(('tbline',) + f, {'str', 'notnone'}) for f in tb.name[2]])))]
        return None

    def x_traceback_extract_tb(self, st, p, fr, n):
        tb = p.pos[0] if p.pos else None
        if self.policy.tracebacks and len(p.pos) == 1 and not p.kw and isinstance(tb, Sym) and tb.name[0] == 'tb' and isinstance(tb.name[-1], tuple):
            return [(st, self.alloc(st, Obj('list', items=[Sym(('tbframe',) + f, {'notnone', 'truthy'}) for f in tb.name[2]], meta={'stack': True})))]
        return None

    def x_traceback_format_list(self, st, p, fr, n):
        l = p.pos[0] if p.pos else None
        if self.policy.tracebacks and isinstance(l, Ref) and st.obj(l).kind == 'list' and all(isinstance(x, Sym) and x.name[0] == 'tbframe' for x in st.obj(l).items):
            return [(st, self.alloc(st, Obj('list', items=[Sym(('tbline',) + x.name[1:], {'str', 'notnone'}) for x in st.obj(l).items])))]
        return None

    def x_sys_exception(self, st, p, fr, n):
        return [(st, st.excs[-1] if st.excs else NONE)]

    def x_contextvars_ContextVar(self, st, p, fr, n):
        meta = {}
        if 'default' in p.kw:
            meta['default'] = p.kw['default']
        return [(st, self.alloc(st, Obj('ctxvar', meta=meta)))]

    def weakly(self, res, mark):
        for s, v in res:
            if isinstance(v, Ref):
                s.mut(v).meta = {**s.obj(v).meta, mark: True}
        return res

    def x_weakref_WeakKeyDictionary(self, st, p, fr, n):
        return self.weakly(self.x_dict(st, p, fr, n), 'weak_keys')

    def x_weakref_WeakValueDictionary(self, st, p, fr, n):
        return self.weakly(self.x_dict(st, p, fr, n), 'weak_values')

    def x_weakref_ref(self, st, p, fr, n):
        cb = p.pos[1] if len(p.pos) > 1 else p.kw.get('callback', NONE)
        r = self.alloc(st, Obj('wref', cls=ExtV('weakref.ref'), meta={'target': p.pos[0], 'callback': cb}))
        self.event(st, fr, n, 'wref', ref=r, target=p.pos[0], callback=cb)
        return [(st, r)]

    def x_weakref_WeakSet(self, st, p, fr, n):
        return self.weakly(self.x_set(st, p, fr, n), 'weak_keys')

    def x_threading_Event(self, st, p, fr, n):
        return [(st, self.alloc(st, Obj('ext', cls=ExtV('threading.Event'))))]

    def x_queue_Queue(self, st, p, fr, n):
        r = self.alloc(st, Obj('ext', cls=ExtV('queue.Queue'), meta={'pack': p}))
        self.event(st, fr, n, 'call', callee=ExtV('queue.Queue'), name='queue.Queue', pack=p, raised=None, awaited=False, result=r)
        return [(st, r)]

    def x_threading_Thread(self, st, p, fr, n):
        r = self.alloc(st, Obj('ext', cls=ExtV('threading.Thread'), meta={'pack': p}))
        self.event(st, fr, n, 'call', callee=ExtV('threading.Thread'), name='threading.Thread', pack=p, raised=None, awaited=False, result=r)
        return [(st, r)]
