"""Encoding of arguments, results, local variables and exceptions: total and faithful."""
from .decor import *
from ..values import Exc

JV = 'polog/utils/json_vars.py:json_vars'
JO = 'polog/utils/json_vars.py:json_one_variable'
GT = 'polog/core/utils/get_traceback.py'
ED = 'polog/core/utils/exception_to_dict.py:exception_to_dict'
VS = [Sym('value_%d' % i, {'user', 'sub'}) for i in range(2)]
DUMPS = Sym(('attr', setting('json_module'), 'dumps'))
SPEC = '''
def spec(v):
    for t in (bool, int, float, str):
        if isinstance(v, t):
            return t.__name__
    return type(v).__name__
def base(v):
    return isinstance(v, (bool, int, float, str))
'''


def is_dumps(callee, name):
    return (isinstance(callee, Sym) and callee.name[0] == 'attr' and callee.name[-1] == 'dumps') or str(name).endswith('json.dumps')


def raw(st, v, acc, depth=6):
    """values of the user that are in the data as they are"""
    if depth < 0:
        return acc
    if isinstance(v, Sym):
        if v in VS or (v.name[0] == 'res' and v.name[1] in (USER, AUSER)):
            acc.append(v)
    elif isinstance(v, TupleV):
        for x in v.items:
            raw(st, x, acc, depth - 1)
    elif isinstance(v, Ref):
        o = st.obj(v)
        for x in (list(o.items.values()) if isinstance(o.items, dict) else list(o.items or ())):
            raw(st, x, acc, depth - 1)
    return acc


class Encoding(UserPolicy):
    """str() of any object of the user may raise; the json module refuses the chosen values; formatting a traceback may raise"""
    user_str_raises = True
    bad = ()
    trace_raises = False

    def call(self, it, st, callee, name, pack, fr, n):
        if is_dumps(callee, name) and any(x in self.bad for x in raw(st, pack.pos[0], [])):
            e = Sym(('exc', 'dumps', st.count(('dumps',))), {'exc', 'Exception', 'user'})
            it.event(st, fr, n, 'call', callee=callee, name=name, pack=pack, raised=e, awaited=False, result=None)
            return [(st, Exc(e, it.loc(fr, n)))]
        return None

    def may_raise(self, it, st, callee, name, pack):
        if self.trace_raises and str(name).endswith('traceback.format_tb'):
            return ('Exception',)
        return super().may_raise(it, st, callee, name, pack)


def dumped(p, v):
    """the data an encoded text was made from"""
    for e in p.events('call'):
        if is_dumps(e.data['callee'], e.data['name']) and e.data['raised'] is None and e.data['result'] == v:
            return e.data['pack'].pos[0]
    return None


def item(ctx, p, c, what, d, v, bad):
    """one encoded value: {'value': ..., 'type': ...}"""
    for q, ok in p.decide('D["type"] == spec(V) and len(D) == 2', D=d, V=v):
        ctx.check(ok, 'type', c, '%s: the name of the type in the text is wrong' % what, q)
    for q, b in p.decide('base(V)', V=v):
        for q, x in q.eval('D["value"]', D=d):
            if b:
                if bad:
                    ctx.check(x != v, 'value', c, '%s: a value that cannot be encoded is in the text' % what, q)
                else:
                    ctx.check(x == v, 'value', c, '%s: the value is not in the text as it is: %r' % (what, x), q)
            elif q.st.facts.get(('strok', v)) is not False and not bad:
                for q2, same in q.decide('X == str(V)', X=x, V=v):
                    ctx.check(same, 'value', c, '%s: the value in the text is not str() of the object: %r' % (what, x), q2)
            else:
                for q2, same in q.decide('isinstance(X, str)', X=x):
                    ctx.check(same, 'value', c, '%s: an object without a text is not replaced by a text: %r' % (what, x), q2)


def c27(ctx):
    subsets = [(), (VS[0],), tuple(VS)]
    small = Const(7)
    kw = {'V%d' % i: v for i, v in enumerate(VS)}
    shapes = {'json_vars(V0)': (['V0'], {}), 'json_vars(V0, V1)': (['V0', 'V1'], {}), 'json_vars(V1, x=V0)': (['V1'], {'x': 'V0'}), 'json_vars(x=V0, y=V1)': ([], {'x': 'V0', 'y': 'V1'}),
              'json_vars(SMALL, V0, self=SMALL)': (['SMALL', 'V0'], {'self': 'SMALL'}), 'json_vars(SMALL, args=V0, kwargs=SMALL)': (['SMALL'], {'args': 'V0', 'kwargs': 'SMALL'}),
              'json_vars(*[V0, SMALL], **{"any thing": SMALL})': (['V0', 'SMALL'], {'any thing': 'SMALL'})}
    kw['SMALL'] = small

    def mk(bad, **k):
        pol = Encoding(raises=('Exception',))
        pol.bad = bad
        for a, b in k.items():
            setattr(pol, a, b)
        return world(ctx, pol, encode=False, fixed={'level': Const(0), 'deduplicate_errors': FALSE, 'traceback_cutting': FALSE, 'suppress_by_default': FALSE, 'full_unlog': FALSE, 'service_name': NONE})

    worlds = {(b, t): mk(b, trace_raises=t) for b in subsets for t in (False, True)}
    hard = {k: mk(tuple(VS) + (Sym(('res', KINDS[k][2], 0), {'user'}),), trace_raises=True) for k in KINDS}

    def vars_(job):
        call, (pos, named), bad = job
        w = worlds[bad, False]
        for p in w.client(SPEC + 'from polog import json_vars\nx = %s\n' % call, **binds(**kw)):
            if not ctx.check(p.exc is None, 'total', JV, '%s raises %s' % (call, p.show_exc()), p):
                continue
            d = dumped(p, p.var('x'))
            if not ctx.check(d is not None, 'value', JV, '%s does not return the text made by the json module: %r' % (call, p.var('x')), p):
                continue
            for q, ok in p.decide('len(D.get("args", ())) == %d and len(D.get("kwargs", ())) == %d and ("args" in D) == %r and ("kwargs" in D) == %r' % (len(pos), len(named), bool(pos), bool(named)), D=d):
                if not ctx.check(ok, 'shape', JV, '%s: not every argument is in the text exactly once' % call, q):
                    continue
                for i, n in enumerate(pos):
                    for q2, x in q.eval('D["args"][%d]' % i, D=d):
                        item(ctx, q2, JV, call, x, kw[n], kw[n] in bad)
                for k, n in named.items():
                    for q2, inside in q.decide('%r in D["kwargs"]' % k, D=d):
                        if ctx.check(inside, 'shape', JV, '%s: the argument "%s" is missing' % (call, k), q2):
                            for q3, x in q2.eval('D["kwargs"][%r]' % k, D=d):
                                item(ctx, q3, JV, call, x, kw[n], kw[n] in bad)

    def one(job):
        bad, = job
        w = worlds[bad, False]
        for p in w.client(SPEC + 'from polog.utils.json_vars import json_one_variable\nx = json_one_variable(V0)\n', **binds(**kw)):
            if ctx.check(p.exc is None, 'total', JO, 'json_one_variable raises %s' % p.show_exc(), p):
                d = dumped(p, p.var('x'))
                if ctx.check(d is not None, 'value', JO, 'the result is not the text made by the json module: %r' % (p.var('x'),), p):
                    item(ctx, p, JO, 'json_one_variable(V)', d, VS[0], VS[0] in bad)

    def misc(job):
        w = worlds[(), False]
        for p in w.client('from polog import json_vars\nx = json_vars()\n', **binds()):
            ctx.check(p.exc is None and p.var('x') == NONE, 'shape', JV, 'json_vars() is not None', p)
        ex = Sym(('exc', 'user'), {'exc', 'Exception', 'user'})
        for p in w.client('from polog.core.utils.exception_to_dict import exception_to_dict\nd = {}\nexception_to_dict(d, X)\n', X=ex):
            if ctx.check(p.exc is None, 'total', ED, 'describing an exception raises %s' % p.show_exc(), p):
                for q, ok in p.decide('d["exception_type"] == type(X).__name__ and (d["exception_message"] == str(X) if %r else isinstance(d["exception_message"], str))' % (p.st.facts.get(('strok', ex)) is not False), X=ex):
                    ctx.check(ok, 'value', ED, 'an exception is described wrongly', q)
        tr = worlds[(), True]
        for fn in ('get_traceback', 'get_locals_from_traceback'):
            for body in ('x = %s()' % fn, 'try:\n    USER()\nexcept Exception:\n    x = %s()\nelse:\n    x = ""' % fn):
                for p in tr.client('from polog.core.utils.get_traceback import %s\n' % fn + body + '\n', **binds()):
                    ctx.check(p.exc is None, 'total', '%s:%s' % (GT, fn), '%s raises %s' % (fn, p.show_exc()), p)

    def decorated(job):
        kind, bad, args = job
        fn, call, user = KINDS[kind]
        w = hard[kind] if bad else worlds[(), True]
        for p in run(w, 'g = log(%s)\n' % fn + CALL % call.replace('*A, **K', args), **kw):
            c = CONSTRUCT[kind]
            calls = p.calls(user)
            if not ctx.check(p.exc is None and len(calls) == 1, 'unbroken', c, 'a decorated call with values that cannot be encoded: %s' % p.show_exc(), p):
                continue
            e = calls[0].data['raised']
            if e is None:
                ctx.check(p.var('raised') == NONE and p.var('r') == calls[0].data['result'], 'unbroken', c, 'a decorated call breaks on a value that cannot be encoded: %s' % w.it.describe_exc(p.st, p.var('raised')), p)
            else:
                ctx.check(p.var('raised') == e, 'unbroken', c, 'a decorated call that raises breaks on a value that cannot be encoded: %s' % w.it.describe_exc(p.st, p.var('raised')), p)
            ctx.check(len(records(p)) == 1, 'unbroken', c, 'a decorated call with values that cannot be encoded writes %d records' % len(records(p)), p)

    def others(job):
        name, src = job
        w = worlds[subsets[1], False]
        for p in run(w, CALL % src, **kw):
            calls = p.calls(USER)
            exp = calls[0].data['raised'] if calls else None
            ctx.check(p.exc is None and p.var('raised') == (NONE if exp is None else exp), 'unbroken', 'polog/loggers', '%s breaks on an object without a text: %s' % (name, p.show_exc() or w.it.describe_exc(p.st, p.var('raised'))), p)
            ctx.check(len(records(p)) == 1, 'unbroken', 'polog/loggers', '%s with an object without a text writes %d records' % (name, len(records(p))), p)

    jobs = [(vars_, (c, s, b)) for c, s in shapes.items() for b in subsets] + [(one, (b,)) for b in subsets[:2]] + [(misc, ())]
    jobs += [(decorated, (k, b, a)) for k in KINDS for b in ((), tuple(VS)) for a in ('V0', 'k=V0')]
    jobs += [(others, x) for x in {'a context manager': '\n    with log(MSG):\n        USER()'}.items()]
    ctx.spread(jobs, lambda j: j[0](j[1]))
    for r, n in (('total', 40), ('shape', 20), ('type', 40), ('value', 40), ('unbroken', 20)):
        ctx.floor(r, n)
