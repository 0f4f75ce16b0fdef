"""Content of records."""
from .decor import *


def clock_atoms(v):
    return [a for a in atoms(v) if a.name[0] == 'res' and len(a.name) > 1 and isinstance(a.name[1], ExtV) and a.name[1].name in CLOCKS]


def clock_order(p, user):
    """clock readings before / after the call of the user function"""
    before, after, seen = set(), set(), False
    for e in p.events('call'):
        if e.data['callee'] == user:
            seen = True
        elif e.data['name'] in CLOCKS:
            (after if seen else before).add(e.data['result'])
    return before, after


def duration_ok(v, before, after):
    ca = set(clock_atoms(v))
    if not (ca & before and ca & after):
        return False
    if isinstance(v, Sym) and v.name[0] == '-' and len(v.name) == 3:
        l, r = set(clock_atoms(v.name[1])), set(clock_atoms(v.name[2]))
        return l <= after and r <= before
    return True


def expect(ctx, p, rec, key, spec, rule, c, **binds):
    for q, same in p.decide('REC.get(%r) == (%s)' % (key, spec), REC=rec, **binds):
        ctx.check(same, rule, c, 'the field "%s" of the record is not %s' % (key, spec), q)


def absent(ctx, p, rec, key, rule, c):
    for q, inside in p.decide('%r in REC' % key, REC=rec):
        ctx.check(not inside, rule, c, 'the record has a field "%s" it should not have' % key, q)


CLASSES = [
    ('class thing:\n    @log\n    def method(self):\n        return 1\n', 'thing().method()', 'thing'),
    ('class _Hidden2:\n    @log\n    def method(self):\n        return 1\n', '_Hidden2().method()', '_Hidden2'),
    ('class Outer:\n    class inner:\n        @log\n        def method(self):\n            return 1\n', 'Outer.inner().method()', 'inner'),
    ('def maker():\n    class Local:\n        @log\n        def method(self):\n            return 1\n    return Local\n', 'maker()().method()', 'Local'),
    ('@log\ndef method():\n    return 1\n', 'method()', None),
    ('def maker():\n    @log\n    def method():\n        return 1\n    return method\n', 'maker()()', None),
    ('class Parent:\n    @log\n    def method(self):\n        return 1\nclass Child(Parent):\n    pass\n', 'Child().method()', 'Parent'),
    ('class Kls:\n    @staticmethod\n    @log\n    def method():\n        return 1\n', 'Kls.method()', 'Kls'),
]


def c06(ctx):
    w = world(ctx, fixed={'level': Const(0), 'deduplicate_errors': FALSE, 'traceback_cutting': FALSE})
    forms = {'bare': 'g = log(%s)', 'message': 'g = log(MSG)(%s)', 'both': 'g = log(MSG, level=LVL, errors_level=ELVL)(%s)', 'suppress_all': 'g = log(MSG).suppress()(%s)'}
    for form, deco in forms.items():
        for kind, (fn, call, user) in KINDS.items():
            c = CONSTRUCT[kind]
            for p0 in run(w, 'from polog import json_vars\nfrom polog.utils.json_vars import json_one_variable\n' + deco % fn):
                ctx.need(p0.exc is None, 'decoration fails')
                mark = w.it.next_id
                for p in p0.run(CALL % call):
                    calls = p.calls(user)
                    if len(calls) != 1:
                        ctx.fail('one-call', c, 'the wrapped function is called %d times' % len(calls), p)
                        continue
                    e, res = calls[0].data['raised'], calls[0].data['result']
                    if e is not None and 'BaseException' in e.tags:
                        continue
                    if not ctx.check(len(records(p)) == 1, 'record', c, '%d records' % len(records(p)), p):
                        continue
                    rec = records(p)[0].data['log']
                    content(ctx, p, rec, form, kind, fn, user, e, res, c)
                    # the call leaves nothing of its own in objects shared between calls
                    mine = lambda s: any(a in (ARGS, KW, e, res) or a in clk for a in s)
                    clk = set().union(*clock_order(p, user))
                    for ev in shared_writes(p, mark, mine):
                        ctx.fail('no-shared-state', where(ev), 'a call stores its own data in an object shared between calls (%s)' % (ev.data.get('attr') or ev.data.get('op')), p, ev.loc)
                    ctx.ok('no-shared-state', c)
    # two consecutive calls: the records do not influence each other
    for kind, (fn, call, user) in KINDS.items():
        src = 'from polog import json_vars\nfrom polog.utils.json_vars import json_one_variable\ng = log(MSG)(%s)\n' % fn + CALL % call + 'A = A2\nK = K2\n' + CALL % call
        A2, K2 = Sym('args2', {'tuple', 'user'}), Sym('kwargs2', {'dict', 'user'})
        for p in run(w, src, A2=A2, K2=K2):
            calls = p.calls(user)
            if len(calls) != 2 or any(x.data['raised'] is not None and 'BaseException' in x.data['raised'].tags for x in calls):
                continue
            c = CONSTRUCT[kind]
            if not ctx.check(len(records(p)) == 2, 'record', c, '%d records for two calls' % len(records(p)), p):
                continue
            for i, (a, k) in enumerate(((ARGS, KW), (A2, K2))):
                rec = records(p)[i].data['log']
                e, res = calls[i].data['raised'], calls[i].data['result']
                outcome(ctx, p, rec, e, res, c)
                expect(ctx, p, rec, 'input_variables', 'json_vars(*A_, **K_)', 'arguments', c, A_=a, K_=k)
    # methods: the class is named
    for p in run(w, '''
class Thing:
    @log
    def method(self, *a, **k):
        return USER(*a, **k)
t = Thing()
''' + CALL % 't.method(*A, **K)'):
        for r in records(p):
            expect(ctx, p, r.data['log'], 'class', '"Thing"', 'class-name', CONSTRUCT['sync'])
            expect(ctx, p, r.data['log'], 'function', '"method"', 'function-name', CONSTRUCT['sync'])
    for src, call, cls in CLASSES:
        for p in run(w, src + CALL % call):
            if not ctx.check(p.exc is None and len(records(p)) == 1, 'record', CONSTRUCT['sync'], '%s: %d records (%s)' % (call, len(records(p)), p.show_exc()), p):
                continue
            rec = records(p)[0].data['log']
            expect(ctx, p, rec, 'function', '"method"', 'function-name', CONSTRUCT['sync'])
            if cls is None:
                absent(ctx, p, rec, 'class', 'class-name', CONSTRUCT['sync'])
            else:
                expect(ctx, p, rec, 'class', repr(cls), 'class-name', CONSTRUCT['sync'])
    # calls with no arguments at all, and with arguments of one kind only
    for call, a, k in (('g()', '()', '{}'), ('g(M1)', '(M1,)', '{}'), ('g(one=M1)', '()', '{"one": M1}'), ('g(M1, one=M2)', '(M1,)', '{"one": M2}')):
        for p in run(w, 'from polog import json_vars\ng = log(f)\n' + CALL % call, M1=Sym('m1', {'user'}), M2=Sym('m2', {'user'})):
            for r in records(p):
                for q, same in p.decide('REC.function_input_data.args == %s and REC.function_input_data.kwargs == %s' % (a, k), REC=r.data['log']):
                    ctx.check(same, 'input-data', CONSTRUCT['sync'], '%s: the handlers do not get the arguments of the call with the record' % call, q)
                for q, same in p.decide('("input_variables" in REC) == (json_vars(*%s, **%s) is not None)' % (a, k), REC=r.data['log']):
                    ctx.check(same, 'arguments', CONSTRUCT['sync'], '%s: the field "input_variables" is there although the call has no arguments, or is not although it has' % call, q)
    for r, n in (('input-data', 8), ('outcome', 60), ('arguments', 40), ('times', 40), ('no-shared-state', 20), ('class-name', 2), ('decorator-fields', 40)):
        ctx.floor(r, n)


def outcome(ctx, p, rec, e, res, c):
    expect(ctx, p, rec, 'success', repr(e is None), 'outcome', c)
    if e is None:
        expect(ctx, p, rec, 'result', 'json_one_variable(RES)', 'outcome', c, RES=res)
        absent(ctx, p, rec, 'exception_type', 'outcome', c)
        absent(ctx, p, rec, 'exception_message', 'outcome', c)
        absent(ctx, p, rec, 'traceback', 'outcome', c)
    else:
        expect(ctx, p, rec, 'exception_type', 'type(X).__name__', 'outcome', c, X=e)
        expect(ctx, p, rec, 'exception_message', 'str(X)', 'outcome', c, X=e)
        absent(ctx, p, rec, 'result', 'outcome', c)
        for q, inside in p.decide('"traceback" in REC and "local_variables" in REC', REC=rec):
            ctx.check(inside, 'outcome', c, 'the record of an error has no traceback or local variables', q)


def content(ctx, p, rec, form, kind, fn, user, e, res, c):
    outcome(ctx, p, rec, e, res, c)
    expect(ctx, p, rec, 'input_variables', 'json_vars(*A, **K)', 'arguments', c)
    expect(ctx, p, rec, 'auto', 'True', 'decorator-fields', c)
    expect(ctx, p, rec, 'function', repr(fn), 'decorator-fields', c)
    expect(ctx, p, rec, 'module', '"client"', 'decorator-fields', c)
    expect(ctx, p, rec, 'service_name', 'S_service_name', 'decorator-fields', c)
    if form == 'bare':
        absent(ctx, p, rec, 'message', 'decorator-fields', c)
    else:
        expect(ctx, p, rec, 'message', 'MSG', 'decorator-fields', c)
    before, after = clock_order(p, user)
    for q, v in p.eval('REC.get("time_of_work")', REC=rec):
        ctx.check(duration_ok(v, before, after), 'times', c, 'the duration in the record (%r) is not the time between the start and the end of the call' % (v,), q)
    for q, v in p.eval('REC.get("time")', REC=rec):
        ca = set(clock_atoms(v))
        ctx.check(ca and ca <= before, 'times', c, 'the time of the record (%r) is not the start of the call' % (v,), q)
