"""The frames an exception shows after it has passed a decorated call."""
from .decor import *

CT = 'polog/core/utils/cut_traceback.py'
GT = 'polog/core/utils/get_traceback.py'
TB = Sym('outside', {'user'})


class Frames(UserPolicy):
    tracebacks = True


# programs: a function of the client that leads to USER through decorated calls; frames expected under `try`, outermost first
CLIENTS = {
    'one call': ('@log\n{a}def g1(*a, **k):\n    return {w}USER(*a, **k)\n', ['g1']),
    'with a message': ('@log(MSG)\n{a}def g1(*a, **k):\n    return {w}USER(*a, **k)\n', ['g1']),
    'with levels': ('@log(MSG, level=LVL, errors_level=ELVL)\n{a}def g1(*a, **k):\n    return {w}USER(*a, **k)\n', ['g1']),
    'selective suppression': ('@log.suppress(KeyError)\n{a}def g1(*a, **k):\n    return {w}USER(*a, **k)\n', ['g1']),
    'helpers inside': ('{a}def g2(*a, **k):\n    return {w}USER(*a, **k)\n@log\n{a}def g1(*a, **k):\n    return {w}g2(*a, **k)\n', ['g1', 'g2']),
    'two decorated calls': ('@log\n{a}def g2(*a, **k):\n    return {w}USER(*a, **k)\n@log\n{a}def g1(*a, **k):\n    return {w}g2(*a, **k)\n', ['g1', 'g2']),
    'a plain call between them': ('@log\n{a}def g3(*a, **k):\n    return {w}USER(*a, **k)\n{a}def g2(*a, **k):\n    return {w}g3(*a, **k)\n@log\n{a}def g1(*a, **k):\n    return {w}g2(*a, **k)\n', ['g1', 'g2', 'g3']),
    'recursion': ('@log\n{a}def g1(x=1):\n    if x:\n        return {w}g1(0)\n    return {w}USER()\n', ['g1', 'g1']),
    'caught and raised again': ('@log\n{a}def g1(*a, **k):\n    try:\n        return {w}USER(*a, **k)\n    except Exception:\n        raise\n', ['g1']),
    'twice decorated': ('@log(MSG)\n@log\n{a}def g1(*a, **k):\n    return {w}USER(*a, **k)\n', ['g1']),
    'a method': ('class Thing:\n    @log\n    {a}def g1(self):\n        return {w}USER()\ng1 = Thing().g1\n', ['Thing.g1']),
    'a decorated class': ('@log\nclass Thing:\n    {a}def g1(self):\n        return {w}USER()\ng1 = Thing().g1\n', ['Thing.g1']),
    'a static method': ('class Thing:\n    @staticmethod\n    @log\n    {a}def g1():\n        return {w}USER()\ng1 = Thing.g1\n', ['Thing.g1']),
    'a message inside': ('@log\n{a}def g1(*a, **k):\n    message(MSG)\n    return {w}USER(*a, **k)\n', ['g1']),
}


def c38(ctx):
    w = world(ctx, Frames(raises=('Exception',)), encode=False, fixed={'full_unlog': FALSE, 'service_name': NONE})
    w.summary('polog.utils.json_vars:json_vars', 'json_vars', {'maynone'})
    w.summary('polog.utils.json_vars:json_one_variable', 'json_one', {'str'})
    w.summary('polog.core.utils.get_traceback:get_locals_from_traceback', 'get_locals', {'maynone'})

    def one(job):
        name, (src, want), kind = job
        sub = dict(a='', w='') if kind == 'sync' else dict(a='async ', w='await ')
        user = USER if kind == 'sync' else AUSER
        fix = lambda s: s.format(**sub).replace('USER', 'USER' if kind == 'sync' else 'AUSER')
        c = CONSTRUCT[kind]
        for p in run(w, fix(src) + CALL % fix('{w}g1()')):
            if not ctx.check(p.exc is None, 'runs', c, '%s: %s' % (name, p.show_exc()), p):
                continue
            calls = p.calls(user)
            e = calls[0].data['raised'] if calls else None
            if e is None or p.var('raised') != e:
                continue
            frames = p.st.counters.get(('tb', e)) or ()
            mine = [q for q, f in frames if f == 'client']
            lib = [q for q, f in frames if f not in ('client',) and q != 'opaque']
            full = ['<client>'] + want
            for q, cut in p.decide('S_traceback_cutting'):
                ctx.check(mine == full and ('opaque', user) == frames[-1], 'own-frames', c, '%s: the traceback of the exception names %s of the program, expected %s' % (name, mine + ['...'] if frames and frames[-1] == ('opaque', user) else mine, full + ['...']), q)
                if cut:
                    ctx.check(not lib, 'cut', c, '%s: the traceback of an exception that leaves a decorated call shows the frames %s of the library although traceback_cutting is on' % (name, lib), q)
                else:
                    n = src.count('@log') if name not in ('recursion', 'twice decorated') else {'recursion': 2, 'twice decorated': 1}[name]
                    ctx.check(len(lib) >= n, 'whole', c, '%s: traceback_cutting is off, but the traceback of the exception shows the frames %s of the library, expected at least %d' % (name, lib, n), q)
            # the traceback in the records: of the frames under the decorator, none of the library above them
            for r in records(p):
                got = p.eval('REC.get("traceback")', REC=r.data['log'])[0][1]
                made = [x for x in p.events('call') if x.data['result'] == got and x.data['pack'].pos]
                if not ctx.check(len(made) == 1, 'recorded', GT, '%s: the traceback of a record is not one encoded list of lines (%r)' % (name, got), p):
                    continue
                arg = made[0].data['pack'].pos[0]
                ok = isinstance(arg, Ref) and p.st.obj(arg).kind == 'list'
                lines = [x.name[1:] if isinstance(x, Sym) and x.name[0] == 'tbline' else None for x in p.st.obj(arg).items] if ok else [None]
                fn = p.eval('REC.get("function")', REC=r.data['log'])[0][1]
                at = [i for i, q in enumerate(want) if isinstance(fn, Const) and q.split('.')[-1] == fn.v]
                own = [x[0] for x in lines if x is not None and x[1] == 'client']
                ctx.check(None not in lines and lines and lines[-1] == ('opaque', user) and any(own == want[i:] for i in at) and lines[0][1] == 'client', 'recorded', GT,
                          '%s: the traceback in the record of %s has the lines of %s, expected those of %s' % (name, fn, lines, [want[i:] for i in at]), p)

    ctx.spread([(n, x, k) for n, x in CLIENTS.items() for k in KINDS], one)
    for r, n in (('own-frames', 30), ('cut', 15), ('whole', 15), ('recorded', 20)):
        ctx.floor(r, n)
