"""Extra fields of records."""
from .decor import *

FG = 'polog/loggers/auto/function_logger.py:FunctionLogger.get_extra_fields'
LI = 'polog/core/log_item.py:LogItem'
FC = 'polog/data_structures/wrappers/fields_container/container.py:FieldsContainer'
FD = 'polog/field.py:field'
NAMES = ('a', 's', 'b', 't', 'l', 'm', 'e')
EX = {n: Sym('extractor_' + n, {'user', 'callable', 'function'}) for n in NAMES}
CV = Sym('converter', {'user', 'callable', 'function'})
XDEFS = 'from polog import field\n' + ''.join('def x%s(record):\n    return X_%s(record)\n' % (n, n) for n in NAMES) + 'def conv(value):\n    return CV(value)\n'
GLOBAL = 'config.add_fields(a=field(xa), s=field(xs))\nconfig.add_engine_fields(b=field(xb), t=field(xt))\n'
IN, ENG = {'a': 'a', 's': 's'}, {'b': 'b', 't': 't'}
CALLF = CALL % 'r = g(*A, **K)'
CALLA = CALL % 'r = await g(*A, **K)'


def deco(args):
    return GLOBAL + 'g = log(MSG, %s)(f)\n' % args + CALLF


# program, fields there when the record is handed over, fields there when it has been processed (field: extractor)
CASES = {
    'global fields': (GLOBAL + 'g = log(f)\n' + CALLF, IN, ENG),
    'global fields, coroutine function': (GLOBAL + 'g = log(af)\n' + CALLA, IN, ENG),
    'fields registered after the decoration': ('g = log(f)\n' + GLOBAL + CALLF, IN, ENG),
    'fields registered after the decoration, with ...': ('g = log(extra_fields=[..., {"l": field(xl)}], extra_engine_fields=[..., {"e": field(xe)}])(f)\n' + GLOBAL + CALLF, {'l': 'l', **IN}, {'e': 'e', **ENG}),
    'own fields are not touched by later global ones': ('g = log(extra_fields={"l": field(xl)}, extra_engine_fields={"e": field(xe)})(f)\n' + GLOBAL + CALLF, {'l': 'l'}, {'e': 'e'}),
    'deleted fields': (GLOBAL + 'g = log(f)\nconfig.delete_fields("a")\nconfig.delete_engine_fields("t")\n' + CALLF, {'s': 's'}, {'b': 'b'}),
    'replaced fields': (GLOBAL + 'g = log(f)\nconfig.add_fields(a=field(xl))\nconfig.add_engine_fields(t=field(xe))\n' + CALLF, {'s': 's', 'a': 'l'}, {'b': 'b', 't': 'e'}),
    'manual': (GLOBAL + CALL % 'handle_log(MSG)', IN, ENG),
    'context': (GLOBAL + CALL % '\n    with log(MSG):\n        USER(*A, **K)', IN, ENG),
    'decorated class': (GLOBAL + '@log(MSG)\nclass C:\n    def m(self, *a, **k):\n        return USER(*a, **k)\n' + CALL % 'C().m(*A, **K)', IN, ENG),
    'standard logging': (GLOBAL + 'from polog.core.stores.settings.actions import from_logging_filter_to_polog\n', None, None),
    'own': (deco('extra_fields={"l": field(xl)}'), {'l': 'l'}, ENG),
    'own, engine': (deco('extra_engine_fields={"l": field(xl)}'), IN, {'l': 'l'}),
    'own, both': (deco('extra_fields={"l": field(xl)}, extra_engine_fields={"e": field(xe)}'), {'l': 'l'}, {'e': 'e'}),
    'own with a global name': (deco('extra_fields={"a": field(xl)}'), {'a': 'l'}, ENG),
    'empty dictionary': (deco('extra_fields={}'), {}, ENG),
    'empty list': (deco('extra_fields=[], extra_engine_fields=()'), {}, {}),
    'only ...': (deco('extra_fields=[...], extra_engine_fields=(...,)'), IN, ENG),
    '... and own': (deco('extra_fields=[..., {"l": field(xl)}], extra_engine_fields=[{"e": field(xe)}, ...]'), {'l': 'l', **IN}, {'e': 'e', **ENG}),
    '... and own in a tuple': (deco('extra_fields=({"l": field(xl)}, ..., {"m": field(xm)})'), {'l': 'l', 'm': 'm', **IN}, ENG),
    '... and own with a global name': (deco('extra_fields=[..., {"a": field(xl)}], extra_engine_fields=[{"t": field(xe)}, ...]'), {'a': 'l', 's': 's'}, {'t': 'e', 'b': 'b'}),
    '... after own with a global name': (deco('extra_fields=[{"a": field(xl)}, ...]'), {'a': 'l', 's': 's'}, ENG),
    'two ...': (deco('extra_fields=[..., {"a": field(xl)}, ...]'), {'a': 'l', 's': 's'}, ENG),
    'several dictionaries': (deco('extra_fields=[{"l": field(xl)}, {"m": field(xm)}]'), {'l': 'l', 'm': 'm'}, ENG),
    'one collection for two decorators': (GLOBAL + 'fs = [{"l": field(xl)}, ...]\nlog(MSG, extra_fields=fs)(f)\ng = log(MSG, extra_fields=fs)(f)\n' + CALLF, {'l': 'l', **IN}, ENG),
    'two decorators': (GLOBAL + 'log(MSG, extra_fields={"m": field(xm)})(f)\ng = log(MSG, extra_fields={"l": field(xl)})(f)\n' + CALLF, {'l': 'l'}, ENG),
}
del CASES['standard logging']
# the same name several times: (program, field, value when fields may not overwrite each other, value when they may)
CLASH = {
    'a place and an engine field': ('config.add_fields(a=field(xa))\nconfig.add_engine_fields(a=field(xb))\ng = log(f)\n' + CALLF, 'a', 'a', 'b'),
    'the message and a place field': ('g = log(MSG, extra_fields={"message": field(xl)})(f)\n' + CALLF, 'message', MSG, 'l'),
    'the message and an engine field': ('g = log(MSG, extra_engine_fields={"message": field(xl)})(f)\n' + CALLF, 'message', MSG, 'l'),
    'an argument and a place field': ('config.add_fields(a=field(xa))\n' + CALL % 'handle_log(MSG, a=MSG)', 'a', MSG, 'a'),
    'an argument and an engine field': ('config.add_engine_fields(b=field(xb))\n' + CALL % 'handle_log(MSG, b=MSG)', 'b', MSG, 'b'),
    'a message inside and a place field': ('config.add_fields(a=field(xa))\n@log\ndef g(*a, **k):\n    message(a=MSG)\n    return USER(*a, **k)\n' + CALLF, 'a', MSG, 'a'),
}
REFUSED = ['extra_fields=5', 'extra_fields="text"', 'extra_fields={1: field(xl)}', 'extra_fields={"l": 5}', 'extra_fields={"l": xl}', 'extra_fields=[{"l": field(xl)}, {"l": field(xm)}]', 'extra_fields=[..., {"l": 5}]', 'extra_fields=[{"l": field(xl)}, {2: field(xl)}]',
           'extra_engine_fields=5', 'extra_engine_fields={1: field(xl)}', 'extra_engine_fields={"l": 5}', 'extra_engine_fields=({"l": field(xl)}, {"l": field(xm)})', 'extra_fields=...', 'extra_fields=set()']
BADFIELD = ['field(5)', 'field(None)', 'field("text")', 'field(lambda: 1)', 'field(lambda a, b: 1)', 'field(lambda a, b=1: 1)', 'field(lambda *a: 1)', 'field(lambda **a: 1)', 'field(lambda a, *b: 1)', 'field(lambda a, **b: 1)', 'field(xl, converter=5)', 'field(xl, converter=lambda: 1)', 'field(xl, converter=lambda a, b: 1)',
            'config.add_fields(l=5)', 'config.add_fields(l=xl)', 'config.add_engine_fields(l=5)', 'config.add_engine_fields(l=xl)']


class Failing(UserPolicy):
    """chosen extractors or converters always fail"""
    bad = ()

    def may_raise(self, it, st, callee, name, pack):
        return ('Exception',) if callee in self.bad else super().may_raise(it, st, callee, name, pack)


def fb(**kw):
    return dict({'X_' + n: s for n, s in EX.items()}, CV=CV, **kw)


def made(p, ex):
    """calls of an extractor"""
    return [e for e in p.events('call') if e.data['callee'] == EX[ex]]


def c26(ctx):
    fixed = {'level': Const(0), 'full_unlog': FALSE, 'traceback_cutting': FALSE, 'service_name': NONE, 'deduplicate_errors': FALSE, 'suppress_by_default': FALSE}
    w = world(ctx, UserPolicy(raises=('Exception',)), fixed={**fixed, 'fields_intersection': FALSE})
    over = world(ctx, UserPolicy(raises=('Exception',)), fixed={**fixed, 'fields_intersection': TRUE})
    real = world(ctx, UserPolicy(raises=('Exception',)), fixed={**fixed, 'fields_intersection': None})
    free = world(ctx, UserPolicy(raises=('Exception',)), fixed=fixed)

    def judge(p, what, rec, want, later):
        """the fields the record has, and the calls of extractors that made them"""
        for n in NAMES:
            ex = want.get(n)
            for q, inside in p.decide('%r in REC' % n, REC=rec):
                if ex is None:
                    ctx.check(not inside, 'absent', FC, '%s: the record has the field "%s"%s' % (what, n, ' before it is processed' if later else ''), q)
                elif ctx.check(inside, 'present', FC, '%s: the record has no field "%s"' % (what, n), q):
                    calls = made(q, ex)
                    if ctx.check(len(calls) == 1 and calls[0].data['pack'].pos == (rec,), 'once', LI, '%s: the extractor of "%s" is called %d times, or not with the record' % (what, n, len(calls)), q):
                        for q2, same in q.decide('REC[%r] is V' % n, REC=rec, V=calls[0].data['result']):
                            ctx.check(same, 'value', LI, '%s: the field "%s" is not what its extractor returned' % (what, n), q2)
        for n in NAMES:
            if n not in want.values():
                ctx.check(not made(p, n), 'absent', LI, '%s: the extractor %s is called%s' % (what, n, ' before the record is processed' if later else ''), p)

    def case(job):
        (name, (src, place, engine)), w = job
        for p in run(w, XDEFS + src, **fb()):
            if not ctx.check(p.exc is None, 'runs', FG, '%s: %s' % (name, p.show_exc()), p):
                continue
            rs = records(p)
            if not ctx.check(len(rs) == 1, 'runs', FG, '%s: %d records' % (name, len(rs)), p):
                continue
            rec = rs[0].data['log']
            judge(p, name, rec, place, True)
            for q in p.run('REC()', REC=rec):
                if ctx.check(q.exc is None, 'runs', LI, '%s: processing the record raises %s' % (name, q.show_exc()), q):
                    judge(q, name, rec, {**place, **engine}, False)

    def clash(job):
        name, (src, key, keep, over) = job
        for p in run(free, XDEFS + src, **fb()):
            if not ctx.check(p.exc is None and len(records(p)) == 1, 'runs', FG, '%s: %s, %d records' % (name, p.show_exc(), len(records(p))), p):
                continue
            rec = records(p)[0].data['log']
            for q in p.run('REC()', REC=rec):
                for q, inter in q.decide('S_fields_intersection'):
                    src_ = over if inter else keep
                    v = src_ if isinstance(src_, Sym) else (made(q, src_)[0].data['result'] if made(q, src_) else None)
                    if not ctx.check(v is not None, 'clash', LI, '%s: the field is not extracted' % name, q):
                        continue
                    for q2, same in q.decide('REC[%r] is V' % key, REC=rec, V=v):
                        ctx.check(same, 'clash', LI, '%s under one name ("%s"), overwriting is %s: the record has the other value' % (name, key, 'allowed' if inter else 'not allowed'), q2)

    def switched(job):
        pre, inter = job
        src = 'config.add_fields(a=field(xa))\n' + pre
        for p0 in run(real, XDEFS + src, **fb()):
            mark = len(records(p0))
            for p in p0.run('handle_log(MSG, a=MSG)\n'):
                if not ctx.check(p.exc is None and len(records(p)) == mark + 1, 'runs', LI, 'changing "fields_intersection": %s' % p.show_exc(), p):
                    continue
                v = made(p, 'a')[-1].data['result'] if inter and made(p, 'a') else MSG
                for q, same in p.decide('REC["a"] is V', REC=records(p)[-1].data['log'], V=v):
                    ctx.check(same, 'switched', LI, 'after %s a record %s' % (pre.strip().replace('\n', '; '), 'keeps a field it should overwrite' if inter else 'overwrites a field it should keep'), q)

    def conv(job):
        src, kind = job
        for p in run(w, XDEFS + src, **fb()):
            rec = records(p)[0].data['log'] if len(records(p)) == 1 else None
            if not ctx.check(p.exc is None and rec is not None, 'runs', FD, 'a field with a converter: %s' % p.show_exc(), p):
                continue
            for q in p.run('REC()', REC=rec):
                xs, cs = made(q, 'l'), q.calls(CV)
                if ctx.check(len(xs) == 1 and len(cs) == 1 and cs[0].data['pack'].pos == (xs[0].data['result'],) and not cs[0].data['pack'].kw, 'converter', FD, 'the converter is called %d times, or not with the extracted value' % len(cs), q):
                    for q2, same in q.decide('REC["l"] is V', REC=rec, V=cs[0].data['result']):
                        ctx.check(same, 'converter', FD, 'the field is not what the converter returned', q2)

    def failing(job):
        src, bad, place, engine = job
        pol = Failing(raises=('Exception',))
        pol.bad = tuple(EX[b] if b in EX else CV for b in bad)
        wf = world(ctx, pol, fixed={**fixed, 'fields_intersection': FALSE})
        for p in run(wf, XDEFS + src, **fb()):
            rec = records(p)[0].data['log'] if len(records(p)) == 1 else None
            if not ctx.check(p.exc is None and rec is not None, 'failing', LI, 'an extractor that fails: %s, %d records' % (p.show_exc(), len(records(p))), p):
                continue
            for q in p.run('REC()', REC=rec):
                if not ctx.check(q.exc is None, 'failing', LI, 'an engine field whose extractor fails breaks the processing: %s' % q.show_exc(), q):
                    continue
                for n, ex in {**place, **engine}.items():
                    calls = made(q, ex) if ex not in ('l',) or CV not in pol.bad else q.calls(CV)
                    failed = len(calls) == 1 and calls[0].data['raised'] is not None
                    for q2, inside in q.decide('%r in REC' % n, REC=rec):
                        ctx.check(inside != failed and len(calls) == 1, 'failing', LI, 'when the extractor of a field fails, the field "%s" is %s' % (n, 'there' if failed else 'missing'), q2)

    def refused(job):
        src, kind = job
        for p in run(w, XDEFS + src, **fb()):
            ok = False
            if p.exc is None and p.var('raised') != NONE:
                ok = all(r for q, r in p.decide('isinstance(R, ValueError)', R=p.var('raised')))
            ctx.check(ok, 'refused', FD if 'field(' in kind and 'extra' not in kind else FG, '%s is not refused with ValueError' % kind, p)

    def below(job):
        src, kind = job
        for p in run(world(ctx, UserPolicy(raises=('Exception',)), fixed={k: v for k, v in fixed.items() if k != 'level'}), XDEFS + src, **fb()):
            if p.exc is None and not records(p):
                ctx.check(not any(made(p, n) for n in NAMES), 'not-recorded', FG, '%s: extractors run for an event that is not recorded' % kind, p)

    on, off = 'config.set(fields_intersection=True)\n', 'config.set(fields_intersection=False)\n'
    jobs = [(switched, x) for x in ((on, True), ('handle_log(MSG)\n' + on, True), (on + off, False), (on + 'handle_log(MSG)\n' + off, False), ('', False), (off + 'handle_log(MSG)\n' + on, True))]
    jobs += [(case, (x, v)) for x in CASES.items() for v in (w, over)] + [(clash, x) for x in CLASH.items()]
    for a in ('extra_fields', 'extra_engine_fields'):
        jobs.append((conv, ('g = log(MSG, %s={"l": field(xl, converter=conv)})(f)\n' % a + CALLF, a)))
    for a in ('add_fields', 'add_engine_fields'):
        jobs.append((conv, ('config.%s(l=field(xl, conv))\ng = log(f)\n' % a + CALLF, a)))
    for src in ('g = log(f)\n' + CALLF, CALL % 'handle_log(MSG)', CALL % '\n    with log(MSG):\n        USER(*A, **K)'):
        jobs += [(failing, (GLOBAL + src, bad, IN, ENG)) for bad in ('a', 's', 'b', 't', 'astb')]
    jobs += [(failing, (deco('extra_fields=[..., {"l": field(xl, converter=conv)}]'), 'C', {**IN, 'l': 'l'}, ENG)), (failing, (deco('extra_engine_fields=[{"l": field(xl, converter=conv)}, ...]'), 'C', IN, {'l': 'l', **ENG}))]
    jobs += [(refused, (CALL % ('g = log(MSG, %s)(f)' % a), a)) for a in REFUSED] + [(refused, (CALL % a, a)) for a in BADFIELD]
    jobs += [(below, (GLOBAL + 'g = log(MSG, level=LVL)(f)\n' + CALLF, 'a decorated call')), (below, (GLOBAL + CALL % 'handle_log(MSG, level=LVL)', 'a manual record'))]
    ctx.spread(jobs, lambda j: j[0](j[1]))
    for r, n in (('present', 60), ('absent', 100), ('once', 60), ('value', 60), ('clash', 8), ('switched', 6), ('converter', 6), ('failing', 20), ('refused', 20), ('not-recorded', 2)):
        ctx.floor(r, n)
