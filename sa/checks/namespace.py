"""The namespace of handlers: registration, names, deletion, live projections."""
from .decor import *
from .process import engine_world

CF = 'polog/config.py:config'
TREE = 'polog/data_structures/trees/named_tree/tree.py:NamedTree'
NAMES = ('a', 'a.b', 'a.b.c', 'b')
OTHER = ('zz', 'a.zz', 'a.b.c.zz')
SETUP = '''
from polog import log, handle_log, config
import sys
box = []
def h1(record):
    box.append(1)
class Odd:
    def __call__(self, record):
        box.append(2)
    def __bool__(self):
        return False
    def __eq__(self, other):
        return True
    def __hash__(self):
        return 1
h2 = Odd()
def h3(record):
    box.append(3)
def own(record):
    box.append(0)
def f():
    return None
tree = config.get_handlers()
def peek(tree, name):
    try:
        return tree[name]
    except KeyError:
        return None
def told(call):
    box.clear()
    call()
    return tuple(box)
'''
# what is attached to the namespace before its history begins: (source, branches that its decorated function g is bound to)
STARTS = {
    'no projection': ('g = None\nloc = None\n', None),
    'a function bound to "a"': ('g = log(handlers=["a", own])(f)\nloc = config.get_handlers("a")\n', ('a',)),
    'a function bound to "a.b"': ('g = log(handlers=["a.b", own])(f)\nloc = config.get_handlers("a.b")\n', ('a.b',)),
    'a function bound to "a.b.c" and "b"': ('g = log(handlers=["a.b.c", own, "b"])(f)\nloc = config.get_handlers("a.b.c", "b")\n', ('a.b.c', 'b')),
    'a function bound to "a.b" and "a"': ('g = log(handlers=("a.b", "a", own))(f)\nloc = config.get_handlers("a.b", "a")\n', ('a', 'a.b')),
    'a function bound to "a" and "a.b"': ('g = log(handlers=("a", "a.b", own))(f)\nloc = config.get_handlers("a", "a.b")\n', ('a', 'a.b')),
}
OBSERVE = '''
values = tuple(tree)
size = len(tree)
gets = tuple([tree.get(name) for name in names])
items = tuple([peek(tree, name) for name in names])
ins = tuple([name in tree for name in names])
if g is not None:
    delivered = told(g)
    local = tuple(loc)
    local_gets = tuple([loc.get(name) for name in names])
everywhere = told(lambda: handle_log('message'))
'''
TRY = 'raised = None\ntry:\n    %s\nexcept Exception as e:\n    raised = e\n'


def canon(st, roots):
    """the part of the heap reachable from the roots, up to renaming of objects"""
    seen, out, todo = {}, [], []

    def name(v):
        if isinstance(v, Ref):
            if v not in seen:
                o = st.obj(v)
                if o.kind in ('class', 'func', 'module', 'env'):
                    return repr(v)
                seen[v] = len(seen)
                todo.append(v)
            return '#%d' % seen[v]
        if isinstance(v, TupleV):
            return tuple(name(x) for x in v.items)
        if isinstance(v, BoundV):
            return ('bound', name(v.func), name(v.self_))
        return repr(v)
    head = tuple(name(r) for r in roots)
    while todo:
        v = todo.pop(0)
        o = st.obj(v)
        items = tuple((name(k), name(x)) for k, x in o.items.items()) if isinstance(o.items, dict) else tuple(name(x) for x in o.items) if o.items is not None else None
        out.append((o.kind, repr(o.cls), tuple((k, name(x)) for k, x in sorted(o.attrs.items())), items, repr(sorted((k, x) for k, x in o.meta.items() if not isinstance(x, (dict, list))) if o.kind != 'lock' else '')))
    return head, tuple(out)


def under(name, branches):
    return any(name == b or name.startswith(b + '.') for b in branches)


def depth(name):
    return 0 if name == '.' else name.count('.') + 1


def c30(ctx):
    pol = UserPolicy(raises=())
    w = engine_world(ctx, pol, fixed={'deduplicate_errors': FALSE, 'suppress_by_default': FALSE, 'full_unlog': FALSE})
    names = NAMES + ('.',)
    nh = 3 if ctx.tier == 'thorough' else 2
    refs = {}

    def observe(p, start, model, what, branches):
        allnames = names + OTHER
        oks = []

        def chk(*x):
            oks.append(ctx.check(*x))
            return oks[-1]
        for q in p.run(OBSERVE, names=TupleV([Const(n) for n in allnames])):
            if not chk(q.exc is None, 'total', TREE, '%s: %s' % (what, q.show_exc()), q):
                continue
            h = [None] + [q.var('h%d' % i) for i in range(1, 4)]
            who = {v: i for i, v in enumerate(h) if v is not None}
            tup = lambda nm: [NONE if v == NONE else who.get(v, v) for v in q.var(nm).items]
            want = [model.get(n, NONE) for n in allnames]
            chk(tup('gets') == want, 'lookup', TREE, '%s: get() of %r gives %r, expected %r' % (what, allnames, tup('gets'), want), q)
            chk(tup('items') == want, 'lookup', TREE, '%s: indexing by %r gives %r, expected %r' % (what, allnames, tup('items'), want), q)
            chk(q.var('size') == Const(len(model)), 'size', TREE, '%s: len() is %r, %d handlers are registered' % (what, q.var('size'), len(model)), q)
            ds = {i: depth(n) for n, i in model.items()}
            vs = tup('values')
            chk(sorted(map(repr, vs)) == sorted(map(repr, model.values())) and all(ds[a] <= ds[b] for a, b in zip(vs, vs[1:])), 'iteration', TREE, '%s: iteration gives %r, registered are %r' % (what, vs, model), q)
            for n, v in zip(allnames, q.var('ins').items):
                if n in model:
                    chk(v == TRUE, 'membership', TREE, '%s: %r is registered but not in the collection' % (what, n), q)
                elif n != '.' and not any(m.startswith(n + '.') for m in model) and not any(b == n or b.startswith(n + '.') for b in branches or ()):
                    chk(v == FALSE, 'membership', TREE, '%s: %r is not registered but is in the collection' % (what, n), q)
            got = sorted(v.v for v in q.var('everywhere').items)
            chk(got == sorted(model.values()), 'delivery', TREE, '%s: a record is given to the handlers %r, registered are %r' % (what, got, model), q)
            if branches:
                loc = {n: i for n, i in model.items() if under(n, branches)}
                got = sorted(v.v for v in q.var('delivered').items)
                chk(got == sorted([0] + list(loc.values())), 'projection', TREE, '%s: the record of the function is given to the handlers %r, expected %r' % (what, got, sorted([0] + list(loc.values()))), q)
                chk(sorted(map(repr, tup('local'))) == sorted(map(repr, loc.values())), 'projection', TREE, '%s: the selected branches hold %r, expected %r' % (what, tup('local'), loc), q)
                want = [loc.get(n, NONE) for n in allnames]
                chk(tup('local_gets') == want, 'projection', TREE, '%s: get() of the selected branches at %r gives %r, expected %r' % (what, allnames, tup('local_gets'), want), q)
        return all(oks)

    def ops():
        for n in names:
            for i in range(1, nh + 1):
                yield 'config.add_handlers({%r: h%d})' % (n, i), ('add', n, i)
                if '.' not in n:
                    yield 'config.add_handlers(%s=h%d)' % (n, i), ('add', n, i)
            yield 'config.delete_handlers(%r)' % n, ('del', n)
        for i in range(1, nh + 1):
            yield 'config.delete_handlers(h%d)' % i, ('delobj', i)
        yield 'config.delete_handlers("zz")', ('no',)
        yield 'config.delete_handlers(own)', ('no',)
        yield 'config.add_handlers({"a.x y": h3})', ('no',)
        yield 'config.add_handlers({"a..x": h3})', ('no',)
        yield 'config.add_handlers({"": h3})', ('no',)
        yield 'config.add_handlers({"a.": h3})', ('no',)
        yield 'config.add_handlers({5: h3})', ('no',)
        yield 'config.add_handlers({"zz": 5})', ('no',)
        yield 'config.add_handlers({"a.zz": None})', ('no',)
        yield 'config.add_handlers(zz="text")', ('no',)
        yield 'config.add_handlers({"zz": lambda: None})', ('no',)
        yield 'config.add_handlers({"a.zz": lambda x, y: None})', ('no',)

    def apply(model, op):
        """the model after the operation, None when it has to be refused"""
        if op[0] == 'add':
            if op[1] in model or op[2] in model.values():
                return None
            return {**model, op[1]: op[2]}
        if op[0] == 'del':
            return {n: i for n, i in model.items() if n != op[1]} if op[1] in model else None
        if op[0] == 'delobj':
            return {n: i for n, i in model.items() if i != op[1]} if op[1] in model.values() else None
        return None

    def job(start):
        src, branches = STARTS[start]
        (p,) = w.client(SETUP + src, **binds())
        if not ctx.check(p.exc is None, 'total', CF, '%s: %s' % (start, p.show_exc()), p):
            return
        seen = set()
        queue = [(p, {}, '')]
        while queue:
            p, model, hist = queue.pop(0)
            key = (tuple(sorted(model.items())), canon(p.st, (p.var('tree'), p.var('loc'), p.var('g'))))
            if key in seen:
                continue
            seen.add(key)
            what0 = '%s%s' % (start, '; after %s' % hist if hist else '')
            if not observe(p, start, model, what0, branches):
                continue
            for src, op in ops():
                new = apply(model, op)
                what = '%s: %s' % (what0, src)
                for q in p.run(TRY % src):
                    if not ctx.check(q.exc is None, 'total', CF, '%s: %s' % (what, q.show_exc()), q):
                        continue
                    r = q.var('raised')
                    if not ctx.check((r != NONE) == (new is None), 'refusal', CF, '%s is %s' % (what, 'accepted' if r == NONE else 'refused with %s' % w.it.describe_exc(q.st, r)), q):
                        continue
                    queue.append((q, model if new is None else new, (hist + '; ' if hist else '') + src))
    ctx.spread(list(STARTS), job)
    # several at once, in order; names are made up for handlers given without one
    for src, want in (('config.add_handlers(h1, h2)\nconfig.add_handlers(h3)', [1, 2, 3]),
                      ('config.add_handlers(h1, a=h2)\nconfig.add_handlers({"a.b": h3})\nconfig.delete_handlers("a", h1)', [3]),
                      ('config.add_handlers({"a.b": h1, "a": h2, "a.b.c": h3})\nconfig.delete_handlers(h1, h2)', [3]),
                      ('config.add_handlers(h1, h2, h3)\nconfig.delete_handlers(h2)', [1, 3]),
                      ('config.add_handlers({"a.b": h1}, h2)\n%s\n' % TRY.replace('%s', 'config.add_handlers(h1)'), [1, 2]),
                      ('config.add_handlers(h1)\n%s\n' % TRY.replace('%s', 'config.add_handlers(h1)'), [1]),
                      ('config.add_handlers(h1)\n%s\n' % TRY.replace('%s', 'config.add_handlers(a=h1)'), [1]),
                      ('config.add_handlers(h1)\n%s\n' % TRY.replace('%s', 'config.add_handlers({"a.b": h1})'), [1]),
                      ('config.add_handlers(h1)\nname = [x for x in tree.childs][0]\n%s\n' % TRY.replace('%s', 'config.add_handlers({name: h2})'), [1]),
                      ('config.add_handlers(h1)\nname = [x for x in tree.childs][0]\nconfig.delete_handlers(name)\nconfig.add_handlers({name: h2})\n', [2])):
        for p in w.client(SETUP + 'raised = None\n' + src, **binds()):
            if not ctx.check(p.exc is None, 'total', CF, '%s: %s' % (src, p.show_exc()), p):
                continue
            if 'raised' in src:
                ctx.check(p.var('raised') != NONE, 'refusal', CF, '%s is accepted' % src, p)
            for q in p.run("everywhere = told(lambda: handle_log('message'))\nsize = len(tree)"):
                got = sorted(v.v for v in q.var('everywhere').items)
                ctx.check(got == want and q.var('size') == Const(len(want)), 'delivery', CF, '%s: a record is given to the handlers %r, expected %r' % (src, got, want), q)
    for r, n in (('lookup', 100), ('size', 50), ('iteration', 50), ('membership', 100), ('delivery', 50), ('projection', 100), ('refusal', 300)):
        ctx.floor(r, n)
