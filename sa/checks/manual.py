"""Manual records, messages inside decorated calls, the route of log(...)."""
import ast

from .decor import *
from .records import expect, absent

HL = 'polog/loggers/handle/handle_log.py:BaseLogger'
AB = 'polog/loggers/handle/abstract.py:AbstractHandleLogger'
MS = 'polog/loggers/handle/message.py:Message'
FIN = 'polog/loggers/finalizer.py:LoggerRouteFinalizer'
S = {'str', 'notnone'}
MSG2, MOD, FNAME, CNAME, XNAME, V, V2 = (Sym(n, S) for n in ('message_2', 'module_name', 'function_name', 'class_name', 'exception_name', 'variables', 'variables_2'))
B = Sym('success_flag', {'bool', 'notnone'})
VAL = Sym('value', {'user', 'notnone', 'plain'})
X = Sym('exc', {'Exception', 'exc', 'notnone'})
DEF = '''
class Thing:
    class Inner:
        pass
    def __call__(self):
        pass
thing = Thing()
def fails():
    raise ValueError("text")
def fails2():
    raise TypeError("text 2")
try:
    fails()
except ValueError as exc_:
    E = exc_
try:
    fails2()
except TypeError as exc_:
    EE = exc_
'''
# arguments: {field: source of its value, or None where the field is absent}
GOOD = {
    '': {'message': None},
    'MSG': {'message': 'MSG'},
    'message=MSG': {'message': 'MSG'},
    'MSG, message=MSG': {'message': 'MSG'},
    'MSG, function=f': {'message': 'MSG', 'function': '"f"', 'module': '"client"'},
    'function=FNAME': {'function': 'FNAME', 'module': None},
    'function=thing': {'module': '"client"'},
    'MSG, module=MOD': {'message': 'MSG', 'module': 'MOD'},
    'function=FNAME, module=MOD': {'function': 'FNAME', 'module': 'MOD'},
    'class_=Thing': {'class': '"Thing"', 'class_': None},
    'class_=CNAME': {'class': 'CNAME', 'class_': None},
    'class_=Thing.Inner': {'class': '"Inner"', 'class_': None},
    'vars=V': {'local_variables': 'V', 'vars': None},
    'locals=V': {'local_variables': 'V', 'locals': None},
    'local_variables=V': {'local_variables': 'V'},
    'MSG, e=E': {'message': 'MSG', 'exception_type': '"ValueError"', 'exception_message': '"text"', 'success': 'False', 'level': 'S_default_error_level', 'exception': None, 'e': None},
    'exception=E': {'exception_type': '"ValueError"', 'exception_message': '"text"', 'success': 'False', 'level': 'S_default_error_level', 'exception': None},
    'exception=E, level=LVL': {'exception_type': '"ValueError"', 'success': 'False', 'level': 'LVL'},
    'exception=XNAME': {'exception_type': 'XNAME', 'exception_message': None, 'success': 'False', 'level': 'S_default_error_level', 'exception': None, 'traceback': None},
    'success=True': {'success': 'True', 'level': 'S_default_level'},
    'success=False': {'success': 'False', 'level': 'S_default_error_level'},
    'MSG, success=B': {'success': 'B', 'level': 'S_default_level if B else S_default_error_level'},
    'level=LVL': {'level': 'LVL'},
    'MSG, level=LVL, success=False, class_=CNAME, function=FNAME, module=MOD, vars=V': {'message': 'MSG', 'level': 'LVL', 'success': 'False', 'class': 'CNAME', 'function': 'FNAME', 'module': 'MOD', 'local_variables': 'V'},
    'MSG, registered=VAL': {'message': 'MSG', 'registered': '1 if S_fields_intersection else VAL'},
    'MSG, in_engine=VAL': {'message': 'MSG', 'in_engine': 'VAL'},
}
UNKNOWN = {
    'MSG, other=VAL': {'message': 'MSG', 'other': 'VAL'},
    'MSG, auto=True': {'message': 'MSG', 'auto': 'False'},
    'other=VAL, another=V': {'other': 'VAL', 'another': 'V'},
    'other=VAL, class_=CNAME, module=MOD, message=MSG': {'other': 'VAL', 'class': 'CNAME', 'module': 'MOD', 'message': 'MSG'},
}
# incorrect arguments: what is left of them when errors are silenced
BAD = {
    'MSG, message=MSG2': {'message': 'MSG'},
    'message=5': {'message': None},
    'MSG, function=5': {'message': 'MSG', 'function': None},
    'MSG, class_=5': {'message': 'MSG', 'class': None},
    'MSG, e=5': {'message': 'MSG', 'exception_type': None, 'success': None, 'e': None, 'exception': None},
    'MSG, exception=Thing': {'exception_type': None, 'success': None, 'exception': None},
    'MSG, vars=5': {'message': 'MSG', 'local_variables': None, 'vars': None},
    'MSG, locals=[]': {'message': 'MSG', 'local_variables': None, 'locals': None},
    'MSG, success=1': {'message': 'MSG', 'success': None, 'level': 'S_default_level'},
    'MSG, success="False"': {'message': 'MSG', 'success': None},
    'MSG, level=1.5': {'message': 'MSG', 'level': 'S_default_level'},
    'MSG, level=None': {'message': 'MSG', 'level': 'S_default_level'},
    'MSG, level=LNAME, success=False': {'message': 'MSG', 'level': 'S_default_error_level', 'success': 'False'},
    'vars=V, locals=V2': {'local_variables': 'V'},
    'e=E, exception=EE': {'exception_type': '"ValueError"', 'exception_message': '"text"', 'success': 'False'},
    'MSG, message=MSG2, class_=CNAME': {'message': 'MSG', 'class': 'CNAME'},
    'vars=V, locals=V2, class_=CNAME': {'local_variables': 'V', 'class': 'CNAME'},
    'success=1, module=MOD, message=MSG': {'success': None, 'module': 'MOD', 'message': 'MSG'},
    'level=LNAME, success=True, message=MSG': {'message': 'MSG', 'level': 'S_default_level', 'success': 'True'},
    'MSG, class_=CNAME, function=f, vars=5': {'message': 'MSG', 'class': 'CNAME', 'function': '"f"', 'local_variables': None},
}


def finalize(p):
    """registrations of callbacks at the death of an object, and their cancellations"""
    regs = [e for e in p.events('call') if e.data['name'] == 'weakref.finalize']
    dets = [e for e in p.events('call') if isinstance(e.data['callee'], MethV) and e.data['callee'].name == 'detach' and any(e.data['callee'].base == r.data['result'] for r in regs)]
    return regs, dets


def bs(**kw):
    return dict(dict(MSG2=MSG2, MOD=MOD, FNAME=FNAME, CNAME=CNAME, XNAME=XNAME, V=V, V2=V2, B=B, VAL=VAL), **kw)


def content(ctx, rule, what, c, p, rec, want):
    for k, spec in want.items():
        if spec is None:
            for q, inside in p.decide('%r in REC' % k, REC=rec):
                ctx.check(not inside, rule, c, '%s: the record has a field "%s" it should not have' % (what, k), q)
        else:
            for q, same in p.decide('%r in REC and REC[%r] == (%s)' % (k, k, spec), REC=rec):
                ctx.check(same, rule, c, '%s: the field "%s" of the record is not %s' % (what, k, spec), q)


def release(p):
    """the object returned by log(...) dies unused: its finalizer runs"""
    regs, dets = finalize(p)
    return [r for r in regs if not any(d.data['callee'].base == r.data['result'] for d in dets)]


def fire(p, reg):
    pack = reg.data['pack']
    args = dict({'P%d' % i: v for i, v in enumerate(pack.pos[1:])}, **{'K_' + k: v for k, v in pack.kw.items()})
    return p.run(CALL % ('P0(%s)' % ', '.join(['P%d' % i for i in range(1, len(pack.pos) - 1)] + ['%s=K_%s' % (k, k) for k in pack.kw])), **args)


def c23(ctx):
    w = world(ctx, UserPolicy(raises=()), fixed={'level': Const(0), 'full_unlog': FALSE, 'traceback_cutting': FALSE})
    reg = 'config.add_fields(registered=field(lambda x: 1))\nconfig.add_engine_fields(in_engine=field(lambda x: 1))\n'
    base = run(w, 'from polog import field\n' + DEF + reg, **bs())
    ctx.need(len(base) == 1 and base[0].exc is None, 'the client fails: %s' % (base and base[0].show_exc()))
    base = base[0]

    def manual(job):
        logger, args, want, kind = job
        what = '%s(%s)' % (logger, args)
        for p in base.run(CALL % ('%s(%s)' % (logger, args))):
            loud = p.decide('not S_silent_internal_exceptions')
            for p, loud in loud:
                refused = p.var('raised') != NONE
                qs = [p]
                if logger == 'log' and not refused:
                    live = release(p)
                    if not ctx.check(len(live) == 1, 'delivered', FIN, '%s: %d callbacks write the record when the object is dropped' % (what, len(live)), p):
                        continue
                    qs = fire(p, live[0])
                for q in qs:
                    judge(logger, what, args, want, kind, q, loud, refused)

    def judge(logger, what, args, want, kind, q, loud, refused):
        rs, raised = records(q), q.var('raised')
        if kind == 'unknown' and logger == 'handle_log':
            split = q.decide('S_unknown_fields_in_handle_logs')
        else:
            split = [(q, kind != 'bad')]
        for q, ok in split:
            if '2' in args:
                # the same value twice is no contradiction
                for q, differ in q.decide('MSG != MSG2' if 'MSG2' in args else 'V != V2'):
                    if differ:
                        verdict(logger, what, want, q, ok, loud, rs, raised)
                continue
            if 'LNAME' in args:
                for q, known in q.decide('LNAME in REG'):
                    if not known:
                        verdict(logger, what, want, q, False, loud, rs, raised)
                continue
            verdict(logger, what, want, q, ok, loud, rs, raised, unknown=kind == 'unknown')

    def verdict(logger, what, want, q, ok, loud, rs, raised, unknown=False):
        if ok:
            if ctx.check(raised == NONE and len(rs) == 1, 'accepted', AB, '%s: %s, %d records' % (what, w.it.describe_exc(q.st, raised) if raised != NONE else 'accepted', len(rs)), q):
                rec = rs[0].data['log']
                content(ctx, 'content', what, HL, q, rec, want)
                content(ctx, 'content', what, HL, q, rec, {'auto': 'False'})
                for q2, v in q.decide('("service_name" in REC and REC["service_name"] == S_service_name) if S_service_name is not None else "service_name" not in REC', REC=rec):
                    ctx.check(v, 'content', HL, '%s: the service name of the record is wrong' % what, q2)
                if 'time' not in want:
                    for q2, v in q.decide('"time" in REC', REC=rec):
                        ctx.check(v, 'content', HL, '%s: the record has no time' % what, q2)
        elif loud:
            ctx.check(not rs, 'refused', AB, '%s: %d records although the call is incorrect' % (what, len(rs)), q)
            if logger != 'log':
                for q2, r in q.decide('isinstance(R, (ValueError, KeyError))', R=raised):
                    ctx.check(raised != NONE and r, 'refused', AB, '%s is not refused with ValueError or KeyError' % what, q2)
        else:
            if ctx.check(raised == NONE and len(rs) == 1, 'silent', AB, '%s in the silent mode: %s, %d records' % (what, w.it.describe_exc(q.st, raised) if raised != NONE else 'accepted', len(rs)), q):
                if unknown:
                    want = {k: (v if k in ('message', 'class', 'module', 'auto') else None) for k, v in want.items()}
                content(ctx, 'silent', what + ' in the silent mode', AB, q, rs[0].data['log'], want)

    jobs = []
    for logger in ('handle_log', 'log'):
        jobs += [(manual, (logger, a, x, 'good')) for a, x in GOOD.items() if not (a == '' and logger == 'log' and False)]
        jobs += [(manual, (logger, a, x, 'unknown')) for a, x in UNKNOWN.items()]
        jobs += [(manual, (logger, a, x, 'bad')) for a, x in BAD.items()]
    jobs += [(manual, ('handle_log', 'MSG, MSG2', {'message': 'MSG'}, 'bad'))]

    ctx.spread(jobs, lambda j: j[0](j[1]))
    for r, n in (('accepted', 30), ('content', 60), ('refused', 20), ('silent', 20)):
        ctx.floor(r, n)


# ---------------------------------------------------------------- C24
SHAPES = {
    # program; messages expected in the records of each function, in order
    'one call': ('@log(M0)\n{a}def g1():\n    message(M1)\n    return {w}USER()\n', '{w}g1()', {'g1': ['M1']}),
    'through the router': ('@log(M0)\n{a}def g1():\n    log.message(M1)\n    return {w}USER()\n', '{w}g1()', {'g1': ['M1']}),
    'no message': ('@log(M0)\n{a}def g1():\n    return {w}USER()\n', '{w}g1()', {'g1': ['M0']}),
    'after the work': ('@log(M0)\n{a}def g1():\n    try:\n        return {w}USER()\n    finally:\n        message(M1)\n', '{w}g1()', {'g1': ['M1']}),
    'twice': ('@log(M0)\n{a}def g1():\n    message(M1)\n    message(M2)\n    return {w}USER()\n', '{w}g1()', {'g1': ['M2']}),
    'an empty message': ('@log(M0)\n{a}def g1():\n    message(M1)\n    message()\n    return {w}USER()\n', '{w}g1()', {'g1': ['M1']}),
    'left from outside': ('@log(M0)\n{a}def g1():\n    return {w}USER()\n', 'message(M1)\n    {w}g1()', {'g1': ['M0']}),
    'two calls': ('@log(M0)\n{a}def g1(x):\n    if x:\n        message(M1)\n    return {w}USER()\n', 'try:\n        {w}g1(True)\n    except Exception:\n        pass\n    {w}g1(False)', {'g1': ['M1', 'M0']}),
    'nested, after': ('@log(M3)\n{a}def g2():\n    message(M2)\n    return {w}USER()\n@log(M0)\n{a}def g1():\n    message(M1)\n    return {w}g2()\n', '{w}g1()', {'g1': ['M1'], 'g2': ['M2']}),
    'nested, before': ('@log(M3)\n{a}def g2():\n    message(M2)\n    return {w}USER()\n@log(M0)\n{a}def g1():\n    try:\n        return {w}g2()\n    finally:\n        message(M1)\n', '{w}g1()', {'g1': ['M1'], 'g2': ['M2']}),
    'nested, only the outer one': ('@log(M3)\n{a}def g2():\n    return {w}USER()\n@log(M0)\n{a}def g1():\n    message(M1)\n    return {w}g2()\n', '{w}g1()', {'g1': ['M1'], 'g2': ['M3']}),
    'nested, only the inner one': ('@log(M3)\n{a}def g2():\n    message(M2)\n    return {w}USER()\n@log(M0)\n{a}def g1():\n    return {w}g2()\n', '{w}g1()', {'g1': ['M0'], 'g2': ['M2']}),
    'the inner exception is caught': ('@log(M3)\n{a}def g2():\n    message(M2)\n    return {w}USER()\n@log(M0)\n{a}def g1():\n    message(M1)\n    try:\n        {w}g2()\n    except BaseException:\n        pass\n', '{w}g1()', {'g1': ['M1'], 'g2': ['M2']}),
    'the inner exception is suppressed': ('@log(M3).suppress()\n{a}def g2():\n    message(M2)\n    return {w}USER()\n@log(M0)\n{a}def g1():\n    message(M1)\n    {w}g2()\n', '{w}g1()', {'g1': ['M1'], 'g2': ['M2']}),
    'the inner call is below the threshold': ('@log(M3, level=L2, errors_level=L2)\n{a}def g2():\n    message(M2)\n    return {w}USER()\n@log(M0, level=L1, errors_level=L1)\n{a}def g1():\n    message(M1)\n    return {w}g2()\n', '{w}g1()', {'g1': ['M1'], 'g2': ['M2']}),
    'the inner call is excluded': ('@unlog(full=True)\n{a}def g2():\n    return {w}USER()\n@log(M0)\n{a}def g1():\n    message(M1)\n    return {w}g2()\n', '{w}g1()', {'g1': ['M1']}),
    'a manual record inside': ('@log(M0)\n{a}def g1():\n    message(M1)\n    handle_log(M2)\n    return {w}USER()\n', '{w}g1()', {'g1': ['M1'], None: ['M2']}),
    'recursion': ('@log(M0)\n{a}def g1(x):\n    message(M1 if x else M2)\n    if x:\n        return {w}g1(False)\n    return {w}USER()\n', '{w}g1(True)', {'g1': ['M2', 'M1']}),
}
# arguments of message(...): fields of the record of the enclosing call
EDITS = {
    'M1': {'message': 'M1'},
    'message=M1': {'message': 'M1'},
    'M1, level=LVL': {'message': 'M1', 'level': 'LVL'},
    'level=LVL': {'message': 'M0', 'level': 'LVL'},
    'success=B': {'message': 'M0', 'success': 'B'},
    'e=E': {'message': 'M0', 'exception_type': '"ValueError"', 'exception_message': '"text"', 'exception': None, 'e': None},
    'M1, exception=E, success=False': {'message': 'M1', 'exception_type': '"ValueError"', 'exception_message': '"text"', 'success': 'False', 'exception': None},
    'exception=XNAME': {'exception_type': 'XNAME', 'exception': None},
    'class_=CNAME': {'class': 'CNAME', 'class_': None},
    'class_=Thing': {'class': '"Thing"'},
    'class_=Thing.Inner': {'class': '"Inner"'},
    'module=MOD': {'module': 'MOD'},
    'vars=V': {'local_variables': 'V', 'vars': None},
    'locals=V': {'local_variables': 'V', 'locals': None},
    'M1, registered=VAL': {'message': 'M1', 'registered': '1 if S_fields_intersection else VAL'},
}
WRONG = {
    'M1, function=FNAME': {'message': 'M1', 'function': '"g1"'},
    'M1, function=f': {'message': 'M1', 'function': '"g1"'},
    'M1, success=1': {'message': 'M1'},
    'M1, level=1.5': {'message': 'M1'},
    'M1, e=5': {'message': 'M1', 'e': None, 'exception': None},
    'M1, class_=5': {'message': 'M1', 'class': None},
    'M1, M2': {'message': 'M1'},
    'message=5': {'message': 'M0'},
    'function=FNAME, message=M1, level=LVL': {'message': 'M1', 'level': 'LVL', 'function': '"g1"'},
    'success=1, message=M1, module=MOD': {'message': 'M1', 'module': 'MOD'},
    'level=1.5, class_=CNAME, message=M1': {'message': 'M1', 'class': 'CNAME'},
}


def c24(ctx):
    ms = {'M%d' % i: Sym('message_%d' % i, S) for i in range(4)}
    kw = bs(L1=Sym('level_1', {'int', 'rank', 'nonneg', 'notnone'}), L2=Sym('level_2', {'int', 'rank', 'nonneg', 'notnone'}), **ms)
    w = world(ctx, UserPolicy(raises=('Exception', 'BaseException')), fixed={'deduplicate_errors': FALSE, 'full_unlog': FALSE, 'traceback_cutting': FALSE, 'service_name': NONE})
    one = world(ctx, UserPolicy(raises=('Exception',)), fixed={'level': Const(0), 'deduplicate_errors': FALSE, 'full_unlog': FALSE, 'traceback_cutting': FALSE, 'service_name': NONE})

    def shape(job):
        name, (src, call, want), kind = job
        sub = dict(a='', w='') if kind == 'sync' else dict(a='async ', w='await ')
        fix = lambda s: s.format(**sub).replace('USER', 'USER' if kind == 'sync' else 'AUSER')
        for p in run(w, fix(src) + CALL % fix(call), **kw):
            if not ctx.check(p.exc is None, 'runs', MS, '%s: %s' % (name, p.show_exc()), p):
                continue
            got = {}
            for r in records(p):
                fn = p.eval('REC.get("function")', REC=r.data['log'])[0][1]
                got.setdefault(fn.v if isinstance(fn, Const) else fn, []).append(p.eval('REC.get("message")', REC=r.data['log'])[0][1])
            for fn, xs in got.items():
                exp = [ms[x] for x in want.get(fn, [])]
                if len(exp) == 1:
                    exp = exp * len(xs)
                # records that the threshold or the kind of exception left out: the others keep their order
                k = 0
                for x in xs:
                    while k < len(exp) and exp[k] != x:
                        k += 1
                    ctx.check(k < len(exp), 'own-message', MS, 'a message inside a decorated call (%s, %s): the records of %s carry the messages %r, expected %r' % (name, kind, fn, xs, exp), p)
                    k += 1

    def edit(job):
        args, want, good, kind = job
        sub = dict(a='', w='') if kind == 'sync' else dict(a='async ', w='await ')
        src = '@log(M0)\n{a}def g1(*a, **k):\n    message(ARGS)\n    return {w}USER(*a, **k)\n'.format(**sub).replace('USER', 'USER' if kind == 'sync' else 'AUSER').replace('ARGS', args)
        pre = 'from polog import field\nconfig.add_fields(registered=field(lambda x: 1))\n'
        what = 'message(%s)' % args
        for p in run(one, pre + DEF + src + CALL % '{w}g1(*A, **K)'.format(**sub), **kw):
            if not ctx.check(p.exc is None, 'runs', MS, '%s: %s' % (what, p.show_exc()), p):
                continue
            for p, loud in p.decide('not S_silent_internal_exceptions'):
                rs = records(p)
                if not ctx.check(len(rs) == 1, 'edited', MS, '%s: %d records' % (what, len(rs)), p):
                    continue
                rec = rs[0].data['log']
                calls = p.calls(USER) + p.calls(AUSER)
                if not good and loud:
                    for q, r in p.decide('isinstance(R, (ValueError, KeyError))', R=p.var('raised')):
                        ctx.check(not calls and p.var('raised') != NONE and r, 'refused', MS, '%s is not refused with ValueError or KeyError' % what, q)
                    continue
                if not ctx.check(len(calls) == 1, 'edited' if good else 'silent', MS, '%s is refused' % what, p):
                    continue
                e = calls[0].data['raised']
                content(ctx, 'edited' if good else 'silent', what, MS, p, rec, want)
                rest = {'function': '"g1"', 'auto': 'True', 'success': repr(e is None), 'module': '"client"', 'level': 'S_default_level' if e is None else 'max(S_default_level, S_default_error_level)'}
                content(ctx, 'rest', what, MS, p, rec, {k: v for k, v in rest.items() if k not in want})

    jobs = [(shape, (n, x, k)) for n, x in SHAPES.items() for k in KINDS]
    jobs += [(edit, (a, x, True, k)) for a, x in EDITS.items() for k in KINDS] + [(edit, (a, x, False, k)) for a, x in WRONG.items() for k in KINDS]
    ctx.spread(jobs, lambda j: j[0](j[1]))
    for r, n in (('own-message', 60), ('edited', 60), ('rest', 60), ('refused', 10), ('silent', 10)):
        ctx.floor(r, n)


# ---------------------------------------------------------------- C25
def reaches(st, src, target):
    """the object kept alive by a callback, through attributes, items and closures"""
    seen, todo = set(), [src]
    while todo:
        v = todo.pop()
        if v == target:
            return True
        if isinstance(v, (tuple, list)):
            todo += list(v)
        elif isinstance(v, TupleV):
            todo += list(v.items)
        elif isinstance(v, BoundV):
            todo += [v.self_, v.func]
        elif isinstance(v, MethV):
            todo += [v.base]
        elif isinstance(v, Ref) and v not in seen:
            seen.add(v)
            o = st.obj(v)
            if o.kind == 'module' or o.kind == 'class':
                continue
            todo += list(o.attrs.values())
            if o.kind == 'func':
                # a function keeps the variables it names, its defaults, and nothing else of the frames around it
                names = {x.id for x in ast.walk(o.meta['node']) if isinstance(x, ast.Name)}
                todo += list(o.meta['defaults']) + list(o.meta['kwdefaults'].values())
                env = o.meta['env']
                while isinstance(env, Ref) and st.obj(env).kind == 'env':
                    todo += [v for k, v in st.obj(env).attrs.items() if k in names]
                    env = st.obj(env).meta.get('parent')
                continue
            if isinstance(o.items, dict):
                todo += list(o.items.keys()) + list(o.items.values())
            elif o.items is not None:
                todo += list(o.items)
            for x in o.meta.values():
                if isinstance(x, (Ref, TupleV, BoundV, MethV, tuple, list)):
                    todo.append(x)
                elif isinstance(x, dict):
                    todo += list(x.values())
    return False


UNUSED = ['log(MSG)', 'log()', 'log(message=MSG)', 'log(MSG, level=LVL)', 'log(level=LVL)', 'log.any_level(MSG)', 'log.any_level()', 'log(MSG).suppress(E1)', 'log(MSG).suppress()', 'log.any_level(MSG).suppress(E1)', 'log(exception=E)']
USED = {
    'decorated function': 'g = %s(f)',
    'decorated coroutine function': 'g = %s(af)',
    'decorated class': '@%s\nclass C:\n    def m(self):\n        pass\n',
    'context': 'with %s:\n    USER()\n',
    'context with a changed message': 'with %s as c:\n    c(MSG2)\n    USER()\n',
}
MISUSE = {
    'two functions': 'x(f)\nx(f)\n',
    'a function and a context': 'x(f)\nwith x:\n    USER()\n',
    'a context and a function': 'with x:\n    pass\nx(f)\n',
    'two contexts': 'with x:\n    pass\nwith x:\n    USER()\n',
    'one context twice': 'with x:\n    with x:\n        USER()\n',
    'a number': 'x(5)\n',
    'a string': 'x("text")\n',
    'nothing': 'x(level=5)\n',
    'nothing at all': 'x()\n',
    'a function and a number': 'x(f, 5)\n',
    'a function with a field': 'x(f, other=5)\n',
    'a function with a level': 'x(f, level=5)\n',
}


def c25(ctx):
    fixed = {'level': Const(0), 'full_unlog': FALSE, 'traceback_cutting': FALSE, 'service_name': NONE, 'silent_internal_exceptions': TRUE, 'suppress_by_default': FALSE}
    w = world(ctx, UserPolicy(raises=('Exception', 'BaseException')), fixed=fixed)
    base = run(w, DEF, **bs())
    ctx.need(len(base) == 1 and base[0].exc is None, 'the client fails')
    base = base[0]

    for expr in UNUSED:
        for n in (1, 2):
            src = ''.join('x%d = %s\n' % (i, expr) for i in range(n))
            mark = w.it.next_id
            for p in base.run(src):
                if not ctx.check(p.exc is None, 'unused', FIN, '%s raises %s' % (expr, p.show_exc()), p):
                    continue
                live = release(p)
                if not ctx.check(len(live) == n and not records(p), 'unused', FIN, '%d x %s: %d callbacks would write a record, %d are written before the object dies' % (n, expr, len(live), len(records(p))), p):
                    continue
                for r in live:
                    obj = r.data['pack'].pos[0]
                    mine = [p.var('x%d' % i) for i in range(n)]
                    ctx.check(obj in mine, 'unused', FIN, '%s: the callback watches another object (%r) than the one that is returned' % (expr, obj), p)
                    for x in mine:
                        ctx.check(not any(reaches(p.st, v, x) for v in r.data['pack'].pos[1:] + tuple(r.data['pack'].kw.values())), 'dies', FIN, '%s: the callback keeps the object alive, so that its record is never written' % expr, p)
                for e in p.events():
                    if e.kind in ('store', 'mutate') and isinstance(e.data.get('obj'), Ref) and e.data['obj'].id < mark and e.data['obj'] != p.m:
                        ctx.check(not any(v is not None and reaches(p.st, v, x) for v in (e.data.get('value'), e.data.get('key')) for x in mine), 'dies', where(e), '%s: an object that outlives it keeps it alive, so that its record is never written' % expr, p)
                for i, o in list(p.st.delta.items()):
                    if o.kind == 'ctxvar':
                        ctx.check(not any(reaches(p.st, Ref(i), x) for x in mine), 'dies', FIN, '%s: a context variable keeps the object alive, so that its record is not written' % expr, p)
                for i in range(n):
                    for q in fire(p, live[i]):
                        ctx.check(q.var('raised') == NONE and len(records(q)) == 1, 'unused', FIN, '%s: dropping the object writes %d records (%s)' % (expr, len(records(q)), q.show_exc()), q)
    for expr in UNUSED:
        if 'exception' in expr:
            continue
        for name, use in USED.items():
            decorates = 'g =' in use or 'class C' in use
            for p in base.run('raised = None\ntry:\n    %s\nexcept BaseException as exc:\n    raised = exc\n' % (use % expr).replace('\n', '\n    ')):
                if not ctx.check(p.exc is None, 'used', FIN, '%s: %s' % (expr, p.show_exc()), p):
                    continue
                if p.var('raised') != NONE and not p.calls(USER):
                    ctx.fail('used', FIN, '%s with %s raises %s' % (name, expr, w.it.describe_exc(p.st, p.var('raised'))), p)
                    continue
                live = release(p)
                ctx.check(not live, 'used', FIN, '%s with %s: the object still writes a record of its own when it dies' % (name, expr), p)
                ctx.check(len(records(p)) == (0 if decorates else 1), 'used', FIN, '%s with %s: %d records' % (name, expr, len(records(p))), p)
                body = [i for i, e in enumerate(p.events()) if e.kind == 'call' and e.data['callee'] == USER]
                det = [i for i, e in enumerate(p.events()) if any(e is d for d in finalize(p)[1])]
                if body:
                    ctx.check(all(i < body[0] for i in det), 'used', FIN, '%s with %s: the body runs while the object would still write a record of its own' % (name, expr), p)
    for name, use in MISUSE.items():
        for p in base.run('from polog.errors import IncorrectUseLoggerError, IncorrectUseOfTheDecoratorError, IncorrectUseOfTheContextManagerError\nrefusals = (IncorrectUseLoggerError, IncorrectUseOfTheDecoratorError, IncorrectUseOfTheContextManagerError)\nx = log(MSG)\nok = False\ntry:\n    %s\nexcept refusals:\n    ok = True\n' % use.strip().replace('\n', '\n    ')):
            if not ctx.check(p.exc is None and p.var('ok') == TRUE, 'misuse', FIN, 'one object of log(...) used for %s is not refused' % name, p):
                continue
            ctx.check(not p.calls(USER), 'misuse', FIN, 'one object of log(...) used for %s: the body of the refused context runs' % name, p)
            n = len(records(p)) + len(release(p))
            want = (0, 1) if name.startswith(('nothing', 'a function and a n', 'a function with')) else ((1,) if name.startswith(('a context', 'two contexts', 'one context')) else (0,))
            ctx.check(n in want, 'misuse', FIN, 'one object of log(...) used for %s: %d records, expected %d' % (name, n, want[0]), p)
    for args in ('handlers=5', 'handlers=[5]', 'extra_fields=5', 'extra_engine_fields={"a": 5}', 'nosuch=5', 'level=[]', 'errors_level=[]'):
        for what in ('f', 'af') + (('C',) if args in ('nosuch=5', 'level=[]', 'errors_level=[]', 'handlers=5') else ()):
            src = 'class C:\n    def m(self):\n        return USER()\nok = False\nx = log(MSG, %s)\ntry:\n    x(%s)\nexcept Exception:\n    ok = True\n' % (args, what)
            for p in base.run(src):
                if ctx.check(p.exc is None and p.var('ok') == TRUE, 'misuse', FIN, 'decorating with log(MSG, %s) is not refused' % args, p):
                    ctx.check(not records(p) and not release(p), 'misuse', FIN, 'an object of log(MSG, %s) refused as a decorator writes a record of its own' % args, p)
    for r, n in (('unused', 40), ('dies', 10), ('used', 60), ('misuse', 10)):
        ctx.floor(r, n)
