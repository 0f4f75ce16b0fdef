"""What the library keeps alive: reachability over the abstract heap, and the weak registry of functions."""
import ast

from .process import *
from .namespace import canon, TRY
from ..lib import Path
from ..values import Exc, WrapV

RF = 'polog/core/stores/registering_functions.py:RegisteringFunctions'
WD = 'polog/data_structures/wrappers/weak_linked/dictionary.py:LockedWeakKeyValueDictionary'


def used(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}


def edges(st, v, client):
    """strong references of a value"""
    if isinstance(v, TupleV):
        return list(v.items)
    if isinstance(v, BoundV):
        return [v.func, v.self_]
    if isinstance(v, WrapV):
        return [v.func]
    if isinstance(v, StarV):
        return [v.src]
    if isinstance(v, Pack):
        return list(v.pos) + list(v.kw.values()) + list(v.dstar)
    if not isinstance(v, Ref):
        return []
    o = st.obj(v)
    if o.kind == 'module' and not str(o.meta.get('name', '')).startswith('polog'):
        return []
    if o.kind == 'wref':
        return [o.meta['callback']]
    out = list(o.attrs.values())
    if o.kind == 'func':
        out += list(o.meta.get('defaults') or ()) + list((o.meta.get('kwdefaults') or {}).values())
        names = used(o.meta['node'])
        env = o.meta.get('env')
        while env is not None and isinstance(env, Ref) and st.obj(env).kind != 'module':
            e = st.obj(env)
            out += [x for k, x in e.attrs.items() if k in names]
            names = names - set(e.attrs)
            env = e.meta.get('parent')
        return out
    if o.kind == 'env':
        return []
    if isinstance(o.items, dict):
        if not o.meta.get('weak_keys'):
            out += list(o.items)
        if not o.meta.get('weak_values'):
            out += list(o.items.values())
    elif o.items is not None and not o.meta.get('weak_keys'):
        out += list(o.items)
    if o.cls is not None:
        out.append(o.cls)
    if o.kind != 'class':
        for k, x in o.meta.items():
            out += list(x) if isinstance(x, (list, tuple)) else list(x.values()) if isinstance(x, dict) else [x]
    else:
        out += list(o.meta.get('bases') or ())
    return out


def reach(st, roots, client):
    """{value: the value it was found from}"""
    seen = {}
    todo = [(r, None) for r in roots]
    while todo:
        v, via = todo.pop()
        try:
            if v in seen:
                continue
        except TypeError:
            continue
        if not isinstance(v, (Ref, TupleV, BoundV, WrapV, StarV, Sym, Pack)):
            continue
        seen[v] = via
        todo += [(x, v) for x in edges(st, v, client)]
    return seen


def way(st, seen, v):
    out = []
    while v is not None and len(out) < 12:
        if isinstance(v, Ref):
            o = st.obj(v)
            out.append('%s %s' % (o.kind, o.meta.get('name') or o.meta.get('qualname') or (isinstance(o.cls, Ref) and st.obj(o.cls).meta.get('name')) or ''))
        else:
            out.append(type(v).__name__)
        v = seen[v]
    return ' <- '.join(out)


def roots(st):
    out = []
    for layer in (st.base, st.delta):
        for i, o in layer.items():
            if (o.kind == 'module' and str(o.meta.get('name', '')).startswith('polog')) or o.kind == 'ctxvar':
                out.append(Ref(i))
    return out


V = Sym('some_value', {'user'})
SELF = ('class C:\n    def m(self, *a, **k):\n        return USER(*a, **k)\n    @staticmethod\n    def s(*a, **k):\n        return USER(*a, **k)\n    @classmethod\n    def c(cls, *a, **k):\n        return USER(*a, **k)\n')
PROGRAMS = {
    'a decorated function': 'g = log(f)\n' + CALL % 'g(*A, **K)',
    'a decorated function with arguments': 'g = log(MSG, level=LVL)(f)\n' + CALL % 'g(*A, **K)',
    'a decorated function with handlers and fields of its own': 'g = log(MSG, handlers=[h1], extra_fields=[{"own": field(x1)}, ...], extra_engine_fields={"other": field(x2)})(f)\n' + CALL % 'g(*A, **K)',
    'a decorated coroutine function': 'g = log(MSG)(af)\n' + CALL % 'await g(*A, **K)',
    'a function decorated twice': 'g1 = log(MSG)(f)\ng = log(g1)\n' + CALL % 'g(*A, **K)',
    'a decorator with suppression': 'g = log(MSG).suppress()(f)\n' + CALL % 'g(*A, **K)',
    'an excluded function': 'g = unlog(f)\n' + CALL % 'g(*A, **K)',
    'an excluded function that is decorated': 'g1 = log(f)\ng = unlog(g1)\n' + CALL % 'g(*A, **K)',
    'a decorated function that is excluded': 'g1 = unlog(f)\ng = log(g1)\n' + CALL % 'g(*A, **K)',
    'nested decorated functions': 'g1 = log(MSG)(f)\ndef outer(*a, **k):\n    message(V)\n    return g1(*a, **k)\ng = log(outer)\n' + CALL % 'g(*A, **K)',
    'a message': '@log\ndef g(*a, **k):\n    message(V, exception=V, level=5)\n    return USER(*a, **k)\n' + CALL % 'g(*A, **K)',
    'a decorated class': SELF + 'D = log(MSG)(C)\ng = D()\n' + CALL % 'g.m(*A, **K)' + CALL % 'D.s(*A, **K)',
    'a decorated child of a decorated class': SELF + 'D = log(MSG)(C)\n@log\nclass E(D):\n    def m2(self):\n        pass\ng = E()\n' + CALL % 'g.m(*A, **K)',
    'a context manager': 'cm = log(MSG)\n' + CALL % '\n    with cm:\n        USER(*A, **K)',
    'a bare context manager': CALL % '\n    with log:\n        USER(*A, **K)',
    'nested context managers': 'cm = log(MSG)\ncm2 = log.suppress()\n' + CALL % '\n    with cm2:\n        with cm:\n            USER(*A, **K)',
    'a context manager with suppression': CALL % '\n    with log(MSG).suppress(E1):\n        USER(*A, **K)',
    'a manual record': CALL % 'handle_log(MSG, exception=V, own=V, function=f)' + CALL % 'handle_log(V)',
    'a manual record through log': CALL % 'log(MSG, level=LVL, own=V)',
    'an assertion': 'from polog import ass\n' + CALL % 'ass(V, V)',
    'a refused use of the logger': 'x = log(MSG)\n' + CALL % 'x(5)' + CALL % 'x(V=V)',
}


WSETUP = '''
from polog.data_structures.wrappers.weak_linked.dictionary import LockedWeakKeyValueDictionary
class Plain:
    pass
class Odd:
    def __bool__(self):
        return False
k1, k2, v1, v2 = Plain(), Odd(), Odd(), Plain()
d = LockedWeakKeyValueDictionary()
def peek(key):
    try:
        return d[key]
    except KeyError:
        return 'absent'
def popped(key, *default):
    try:
        return d.pop(key, *default)
    except KeyError:
        return 'absent'
'''
STARTS = {'an empty registry': '', 'a registry with two entries': 'd[k1] = v1\nd[k2] = v2\n', 'two entries with the same value': 'd[k1] = v1\nd[k2] = v1\n', 'a replaced value': 'd[k1] = v1\nd[k1] = v2\n'}
MODELS = {'an empty registry': {}, 'a registry with two entries': {'k1': 'v1', 'k2': 'v2'}, 'two entries with the same value': {'k1': 'v1', 'k2': 'v1'}, 'a replaced value': {'k1': 'v2'}}
LOOK = '''
gets = tuple([d.get(k) for k in live])
items = tuple([peek(k) for k in live])
ins = tuple([k in d for k in live])
size = len(d)
keys, it, vals, pairs = tuple(d.keys()), tuple(d), tuple(d.values()), tuple(d.items())
'''


def dead(it, st, callee, target):
    return [(st, NONE)] if st.facts.get(('dead', target)) else None


def died(p, d, nm, is_key):
    """the object is collected: references to it are cleared, then their callbacks run"""
    q = Path(p.w, p.st.fork(), p.o, p.m, p.fr)
    v = q.var(nm)
    st = q.st
    st.facts[('dead', v)] = True
    seen = reach(st, [d], None)
    if is_key:
        for r in list(seen):
            if isinstance(r, Ref) and st.obj(r).meta.get('weak_keys') and isinstance(st.obj(r).items, dict) and v in st.obj(r).items:
                st.mut(r).items = {k: x for k, x in st.obj(r).items.items() if k != v}
        seen = reach(st, [d], None)
    out = [q]
    for r in list(seen):
        if isinstance(r, Ref) and st.obj(r).kind == 'wref' and st.obj(r).meta['target'] == v and st.obj(r).meta['callback'] != NONE:
            out = [y for x in out for y in x.run('CB(R)\n', CB=st.obj(r).meta['callback'], R=r)]
    return out


def weak(ctx, base, start):
    ks, vs = ('k1', 'k2'), ('v1', 'v2')
    queue = [(p, dict(MODELS[start]), frozenset(), start) for p in base.run(STARTS[start])]
    seen = set()
    while queue and len(seen) < 400:
        p, model, gone, hist = queue.pop(0)
        if not ctx.check(p.exc is None, 'weak-map', WD, '%s: raises %s' % (hist, p.show_exc()), p):
            continue
        d = p.var('d')
        key = (tuple(sorted(model.items())), gone, canon(p.st, [d]))
        if key in seen:
            continue
        seen.add(key)
        held = reach(p.st, [d], None)
        for x in ks + vs:
            ctx.check(p.var(x) not in held, 'not-kept', WD, '%s: %s is held by the registry' % (hist, x), p)
        lk = [k for k in ks if k not in gone]
        lv = [v for v in vs if v not in gone]
        good = True
        for q in p.run(LOOK, live=TupleV([p.var(k) for k in lk])):
            if not ctx.check(q.exc is None, 'weak-map', WD, '%s: raises %s' % (hist, q.show_exc()), q):
                good = False
                continue
            want = [(q.var(k), q.var(v)) for k, v in model.items()]
            o = dict(want)

            def same(nm, exp, ordered=False):
                nonlocal good
                got = list(q.var(nm).items)
                good &= ctx.check(got == exp if ordered else sorted(map(repr, got)) == sorted(map(repr, exp)), 'weak-map', WD, '%s: %s are %r, expected %r' % (hist, nm, got, exp), q)
            same('gets', [o.get(q.var(k), NONE) for k in lk], True)
            same('items', [o.get(q.var(k), Const('absent')) for k in lk], True)
            same('ins', [Const(k in model) for k in lk], True)
            same('keys', list(o))
            same('it', list(o))
            same('vals', list(o.values()))
            same('pairs', [TupleV(x) for x in o.items()])
            good &= ctx.check(q.var('size') == Const(len(model)), 'weak-map', WD, '%s: the size is %r, expected %d' % (hist, q.var('size'), len(model)), q)
        if not good:
            continue
        nxt = []
        for k in lk:
            for v in lv:
                nxt.append(('d[%s] = %s' % (k, v), {**model, k: v}, None))
            rest = {x: y for x, y in model.items() if x != k}
            nxt.append(('r = popped(%s)' % k, rest, model.get(k, "'absent'")))
            nxt.append(('r = popped(%s, 5)' % k, rest, model.get(k, '5')))
            nxt.append(('r = popped(%s, None)' % k, rest, model.get(k, 'None')))
            if k in model:
                nxt.append(('del d[%s]' % k, rest, None))
            nxt.append(('raised = None\ntry:\n    d[%s] = None\nexcept TypeError as e:\n    raised = e\nr = raised is not None' % k, model, 'True'))
        for src, m, res in nxt:
            for q in p.run(src + '\n' + ('ok = r is %s or r == %s\n' % (res, res) if res else 'ok = True\n')):
                if ctx.check(q.exc is None and q.var('ok') == TRUE, 'weak-map', WD, '%s; %s: %s' % (hist, src, q.show_exc() or 'gives %r' % (q.var('r') if res else None,)), q):
                    queue.append((q, m, gone, hist + '; ' + src))
        for x in lk:
            for q in died(p, d, x, True):
                queue.append((q, {k: v for k, v in model.items() if k != x}, gone | {x}, hist + '; %s is collected' % x))
        for x in lv:
            for q in died(p, d, x, False):
                queue.append((q, {k: v for k, v in model.items() if v != x}, gone | {x}, hist + '; %s is collected' % x))


def c34(ctx):
    jobs = [('keep', k) for k in PROGRAMS]
    pol = UserPolicy(raises=('Exception', 'BaseException'))
    w = engine_world(ctx, pol, fixed={'suppress_by_default': FALSE, 'level': Const(0)})
    w.base.freeze()

    def keep(name):
        k = 0
        for p in w.client(HDEFS + 'from polog import message, unlog, flog, clog\nbox = []\ndef keep(record):\n    box.append(1)\nconfig.add_handlers(keep)\n' + PROGRAMS[name], **hbinds(V=V)):
            if not ctx.check(p.exc is None, 'accepted', RF, '%s: %s' % (name, p.show_exc()), p):
                continue
            st = p.st
            seen = reach(st, roots(st), p.m)
            k += 1

            def gone(v, what, c):
                ctx.check(v not in seen, 'not-kept', c, '%s: %s is still reachable from the library afterwards (%s)' % (name, what, way(st, seen, v) if v in seen else ''), p)
            for nm in ('f', 'af', 'g', 'g1', 'D', 'C', 'E', 'cm', 'cm2', 'outer', 'x'):
                v = st.obj(p.m).attrs.get(nm)
                if isinstance(v, Ref):
                    gone(v, 'the object %r of the program' % nm, RF)
                    if st.obj(v).kind == 'class':
                        for k2, x in st.obj(v).attrs.items():
                            x = x.func if isinstance(x, WrapV) else x
                            if isinstance(x, Ref) and st.obj(x).kind == 'func':
                                gone(x, 'the method %s of the class %r' % (k2, nm), RF)
            for e in p.events('call'):
                if e.data['callee'] in (USER, AUSER):
                    for v, what in ((e.data['result'], 'the result of a call'), (e.data['raised'], 'the exception of a call')):
                        if v is not None:
                            gone(v, what, FL)
                if e.data['name'] == 'weakref.finalize' and e.data['raised'] is None:
                    own = reach(st, list(e.data['pack'].pos[1:]) + list(e.data['pack'].kw.values()), p.m)
                    ctx.check(e.data['pack'].pos[0] not in own, 'finalizer', e.loc, '%s: the finalizer of an object holds the object itself: it is never called' % name, p)
            for v, what in ((ARGS, 'the arguments of a call'), (KW, 'the arguments of a call'), (V, 'a value given to the logger'), (Sym('MSG'), 'a message')):
                gone(v, what, FL)
            for i in set(st.delta):
                o = st.delta[i]
                if o.kind == 'inst' and isinstance(o.cls, Ref) and st.obj(o.cls).meta.get('name') == 'LogItem':
                    gone(Ref(i), 'the record', LI)
        ctx.need(k, 'no path of %s' % name)

    pw = UserPolicy(raises=())
    pw.wref_dead = dead
    (base,) = engine_world(ctx, pw, levels=False).client(WSETUP, **hbinds())
    jobs += [('weak', x) for x in STARTS]
    ctx.spread(jobs, lambda j: keep(j[1]) if j[0] == 'keep' else weak(ctx, base, j[1]))
    for r, n in (('not-kept', 300), ('weak-map', 50)):
        ctx.floor(r, n)
