"""Decorated calls and context managers: transparency, exceptions, number of records, levels."""
from .common import *

# how a function can be decorated (public forms)
FORMS = {
    'bare': 'g = log(%s)',
    'empty': 'g = log()(%s)',
    'message': 'g = log(MSG)(%s)',
    'level': 'g = log(level=LVL)(%s)',
    'level_name': 'g = log(level=LNAME)(%s)',
    'errors_level': 'g = log(errors_level=ELVL)(%s)',
    'errors_level_name': 'g = log(errors_level=ELNAME)(%s)',
    'both': 'g = log(MSG, level=LVL, errors_level=ELVL)(%s)',
    'both_names': 'g = log(MSG, level=LNAME, errors_level=ELNAME)(%s)',
    'dot_level': 'g = log.any_level(%s)',
    'dot_level_call': 'g = log.any_level(MSG)(%s)',
    'suppress_all': 'g = log(MSG).suppress()(%s)',
    'suppress_some': 'g = log(MSG).suppress(E1, E2)(%s)',
    'flog': 'g = flog(False, [])(%s)',
}
KINDS = {'sync': ('f', 'r = g(*A, **K)', USER), 'async': ('af', 'r = await g(*A, **K)', AUSER)}
FULL = Pack((StarV(ARGS),), {}, (KW,))
CONSTRUCT = {'sync': FL + ' synchronous wrapper', 'async': FL + ' coroutine wrapper'}
CALL = '''
raised = None
try:
    %s
except BaseException as exc:
    raised = exc
'''


def decorated(ctx, w, forms, kinds=('sync', 'async')):
    for form in forms:
        for kind in kinds:
            fn, call, user = KINDS[kind]
            ps = run(w, FORMS[form] % fn + CALL % call)
            ctx.need(ps, 'the client "%s" has no path' % form)
            for p in ps:
                if p.exc is not None:
                    # every one of these forms is correct: a registered name and an unknown one are both accepted
                    if form != 'suppress_some':
                        ctx.fail('decoration', CONSTRUCT[kind], 'the form "%s" of the decorator is refused: %s' % (form, p.show_exc()), p)
                    continue
                yield form, kind, user, p


def same_pack(p, pack):
    it = p.w.it
    return Pack([it.snap(p.st, x) for x in pack.pos], {k: it.snap(p.st, v) for k, v in pack.kw.items()}, pack.dstar) == FULL


# ---------------------------------------------------------------- C01
def c01(ctx):
    w = world(ctx)
    n = 0
    for form, kind, user, p in decorated(ctx, w, FORMS):
        calls = p.calls(user)
        c = CONSTRUCT[kind]
        if not ctx.check(len(calls) == 1, 'called-once', c, 'with the form "%s" the wrapped function is called %d times' % (form, len(calls)), p):
            continue
        e = calls[0]
        ctx.check(same_pack(p, e.data['pack']), 'same-arguments', c, 'the wrapped function receives %r instead of the caller\'s arguments' % (e.data['pack'],), p)
        if kind == 'async':
            ctx.check(e.data['awaited'], 'awaited', c, 'the coroutine of the wrapped function is not awaited', p)
        if e.data['raised'] is None:
            n += 1
            ctx.check(p.var('raised') == NONE, 'no-new-exception', c, 'the call raises %s although the wrapped function returned' % w.it.describe_exc(p.st, p.var('raised')), p)
            if p.var('raised') == NONE:
                ctx.check(p.var('r') == e.data['result'], 'same-result', c, 'the caller gets %r instead of the result of the wrapped function' % (p.var('r'),), p)
    for kind, (fn, call, user) in KINDS.items():
        for p in run(w, 'from inspect import iscoroutinefunction\ng = log(%s)\nkeep = iscoroutinefunction(g)\nname = g.__name__\n' % fn):
            ctx.check(p.exc is None and p.var('keep') == Const(kind == 'async'), 'same-kind', CONSTRUCT[kind], 'decorating changes whether the function is a coroutine function', p)
            ctx.check(p.exc is None and p.var('name') == Const(fn), 'same-name', CONSTRUCT[kind], 'the decorated function has another name', p)
    ctx.floor('same-result', 100)


# ---------------------------------------------------------------- C02
def c02(ctx):
    w = world(ctx, UserPolicy(user_setattr_raises=True))
    for form, kind, user, p in decorated(ctx, w, ['bare', 'message', 'both', 'suppress_all', 'suppress_some']):
        c = CONSTRUCT[kind]
        calls = p.calls(user)
        if len(calls) != 1 or calls[0].data['raised'] is None:
            continue
        e = calls[0].data['raised']
        got = p.var('raised')
        if 'BaseException' in e.tags:
            ctx.check(got == e, 'not-an-error', c, 'an exception that is not an Exception (KeyboardInterrupt, SystemExit, cancellation) does not reach the caller unchanged: %r' % (got,), p)
            continue
        if form == 'suppress_all':
            ctx.check(got == NONE and p.var('r') == NONE, 'suppressed', c, 'with suppression of everything the call does not return None', p)
        elif form == 'suppress_some':
            spec = '''any((isinstance(X, C) if S_suppress_exception_subclasses else type(X) is C) and issubclass(C, Exception) for C in (E1, E2))'''
            for q, sup in p.decide(spec, X=e):
                if sup:
                    ctx.check(got == NONE and q.var('r') == NONE, 'suppressed', c, 'an exception of a suppressed class reaches the caller', q)
                else:
                    ctx.check(got == e, 'propagates', c, 'an exception that is not to be suppressed does not reach the caller unchanged: %r' % (got,), q)
        else:
            ctx.check(got == e, 'propagates', c, 'the exception of the wrapped function does not reach the caller unchanged: %r' % (got,), p)
    for r, n in (('not-an-error', 8), ('suppressed', 20), ('propagates', 40)):
        ctx.floor(r, n)


# ---------------------------------------------------------------- C03
CM = {
    'with log': 'log',
    'with log()': 'log()',
    'with log(message)': 'log(MSG)',
    'with log(level)': 'log(MSG, level=LVL)',
    'with log.level': 'log.any_level',
    'with log.level(message)': 'log.any_level(MSG)',
    'with log().suppress()': 'log(MSG).suppress()',
    'with log().suppress(...)': 'log(MSG).suppress(E1, E2)',
    'with log.suppress()': 'log.suppress()',
    'with log.suppress(...)': 'log.suppress(E1, E2)',
    'with log.level.suppress(...)': 'log.any_level.suppress(E1, E2)',
}
CMC = 'polog/loggers/finalizer.py:LoggerRouteFinalizer context manager'
BODY = '''
raised = None
try:
    with %s:
        USER()
except BaseException as exc:
    raised = exc
'''

REWRITTEN = '''
raised = None
try:
    with %s as c:
        c(%s)
        USER()
except BaseException as exc:
    raised = exc
'''
REWRITE = {
    'a message': 'OWN',
    'a message by name': 'message=OWN',
    'a message and a field': 'OWN, other=VAL',
    'a field': 'other=VAL',
    'a level': 'level=77',
    'two positional arguments': 'OWN, OWN',
}


def strict_ok(ps, named):
    """in the strict mode an unregistered level name is a usage error and raises"""
    for p in ps:
        if not named:
            yield p
            continue
        for q, bad in p.decide('"any_level" not in REG and not S_silent_internal_exceptions'):
            if not bad:
                yield q


def records(p):
    return p.events('record')


def field(p, rec, key):
    """value of a field of a written record through its public interface -> [(Path, value)]"""
    return p.eval('REC.get(%r)' % key, REC=rec.data['log'])


def c03(ctx):
    w = world(ctx)
    for form, cm in CM.items():
        ps = run(w, BODY % cm)
        ctx.need(ps, 'no path for ' + form)
        for p in strict_ok(ps, 'any_level' in cm):
            if p.exc is not None:
                continue
            calls = p.calls(USER)
            got = p.var('raised')
            if not calls:
                # the arguments of the context manager are refused before the body
                ctx.check(got != NONE, 'body-once', CMC, '%s: the body is not executed' % form, p)
                ctx.check(not records(p), 'refused', CMC, '%s: a record is written although the arguments were refused' % form, p)
                continue
            ctx.check(len(calls) == 1, 'body-once', CMC, '%s: the body is executed %d times' % (form, len(calls)), p)
            e = calls[0].data['raised']
            if e is None:
                ctx.check(got == NONE, 'no-new-exception', CMC, '%s: leaving the context raises %s although the body did not' % (form, w.it.describe_exc(p.st, got)), p)
            elif 'suppress()' in form:
                if 'Exception' in e.tags:
                    ctx.check(got == NONE, 'suppressed', CMC, '%s: an exception leaves the context' % form, p)
            else:
                if 'suppress(' in form:
                    spec = 'any((isinstance(X, C) if S_suppress_exception_subclasses else type(X) is C) for C in (E1, E2) if issubclass(C, Exception)) if (issubclass(E1, Exception) or issubclass(E2, Exception)) else S_suppress_by_default'
                else:
                    spec = 'S_suppress_by_default'
                for q, sup in p.decide(spec, X=e):
                    if sup:
                        if 'Exception' in e.tags:
                            ctx.check(got == NONE, 'suppressed', CMC, '%s: an exception that is to be suppressed leaves the context' % form, q)
                    else:
                        ctx.check(got == e, 'propagates', CMC, '%s: the exception of the body does not leave the context unchanged: %r' % (form, got), q)
            # the record
            recs = records(p)
            lvl = LEVEL_OF_CM(form, e)
            for q, want in p.decide('(%s) >= S_level' % lvl):
                ctx.check(len(recs) == (1 if want else 0), 'one-record', CMC, '%s: %d records are written, expected %d' % (form, len(recs), 1 if want else 0), q)
                if len(recs) == 1 and want:
                    for q2, v in field(q, recs[0], 'success'):
                        ctx.check(v == Const(e is None), 'success-flag', CMC, '%s: the success flag is %r' % (form, v), q2)
                    for q2, v in q.eval('REC.get("level") == (%s)' % lvl, REC=recs[0].data['log']):
                        ctx.check(v == TRUE, 'level', CMC, '%s: the record has another level' % form, q2)
                    if 'MSG' in CM[form]:
                        for q2, v in field(q, recs[0], 'message'):
                            ctx.check(v == MSG, 'message', CMC, '%s: the message of the record is %r' % (form, v), q2)
                    if e is not None:
                        for q2, v in q.eval('REC.get("exception_type") == type(X).__name__ and REC.get("exception_message") == str(X)', REC=recs[0].data['log'], X=e):
                            ctx.check(v == TRUE, 'exception-fields', CMC, '%s: the record does not describe the exception of the body' % form, q2)
    # the object bound by the statement changes the record of the context
    wr = world(ctx, fixed={'level': Const(0), 'suppress_by_default': FALSE, 'silent_internal_exceptions': TRUE})
    own = Sym('replaced_message', {'str', 'notnone'})
    for form, cm in CM.items():
        for what, args in REWRITE.items():
            for p in run(wr, REWRITTEN % (cm, args), OWN=own, VAL=Sym('a_value', {'notnone'})):
                t = '%s as c; %s' % (form, what)
                if p.exc is not None or (not p.calls(USER) and what != 'two positional arguments'):
                    ctx.fail('rewrite', CMC, '%s fails: %s' % (t, p.show_exc() if p.exc is not None else wr.it.describe_exc(p.st, p.var('raised'))), p)
                    continue
                recs = records(p)
                if not ctx.check(len(recs) == 1, 'rewrite', CMC, '%s: %d records' % (t, len(recs)), p):
                    continue
                if what == 'two positional arguments':
                    ctx.check(not p.calls(USER) and (p.var('raised') != NONE or 'suppress' in form), 'rewrite', CMC, '%s is not refused' % t, p)
                    continue
                for q, v in field(p, recs[0], 'message'):
                    want = own if 'OWN' in args else MSG if 'MSG' in cm else NONE
                    ctx.check(v == want, 'rewrite', CMC, '%s: the message of the record is %r, expected %r' % (t, v, want), q)
                if 'other' in args:
                    for q, v in field(p, recs[0], 'other'):
                        ctx.check(v == Sym('a_value', {'notnone'}), 'rewrite', CMC, '%s: the field of the record is %r' % (t, v), q)
                if 'level' in args:
                    for q, v in field(p, recs[0], 'level'):
                        ctx.check(v == Const(77), 'rewrite', CMC, '%s: the level of the record is %r' % (t, v), q)
    ctx.floor('rewrite', 30)
    # nested contexts: the stack of the router is restored, each context writes its own record
    src = '''
raised = None
try:
    with log as outer:
        outer(MSG)
        with log as inner:
            inner(INNER)
            USER()
except BaseException as exc:
    raised = exc
again = None
try:
    with log:
        pass
except BaseException as exc:
    again = exc
'''
    inner = Sym('inner_message', {'str', 'notnone'})
    for p in run(world(ctx, fixed={'level': Const(0), 'suppress_by_default': FALSE}), src, INNER=inner):
        e = p.calls(USER)[0].data['raised']
        recs = records(p)
        if not ctx.check(len(recs) == 3 and p.var('again') == NONE, 'nested', 'polog/loggers/router.py:Router', '%d records for two nested contexts and one after them' % len(recs), p):
            continue
        ms = [field(p, r, 'message')[0][1] for r in recs]
        ctx.check(ms == [inner, MSG, NONE], 'nested', 'polog/loggers/router.py:Router', 'the records of nested contexts carry the messages %r' % (ms,), p)
        ctx.check(p.var('raised') == (NONE if e is None else e), 'nested', 'polog/loggers/router.py:Router', 'exception of a nested context', p)
    # an exception is a failure whatever its truth value
    for body in ('def __bool__(self):\n        return False', 'def __len__(self):\n        return 0'):
        for cm in ('log', 'log(MSG)', 'log(MSG).suppress()', 'log.suppress(ValueError)', 'log.suppress(Falsy)'):
            src = 'class Falsy(Exception):\n    %s\nE = Falsy("text")\nraised = None\ntry:\n    with %s:\n        raise E\nexcept BaseException as exc:\n    raised = exc\n' % (body, cm)
            for p in run(wr, src):
                if not ctx.check(p.exc is None and len(records(p)) == 1, 'falsy', CMC, 'with %s: %d records of a falsy exception' % (cm, len(records(p))), p):
                    continue
                for q, v in p.decide('REC["success"] is False and REC["exception_type"] == "Falsy" and REC["exception_message"] == "text"', REC=records(p)[0].data['log']):
                    ctx.check(v, 'falsy', CMC, 'with %s: an exception that is false as a condition is not recorded as a failure' % cm, q)
                sup = cm in ('log(MSG).suppress()', 'log.suppress(Falsy)')
                for q, v in p.decide('raised is (None if %r else E)' % sup):
                    ctx.check(v, 'falsy', CMC, 'with %s: an exception that is false as a condition is %s' % (cm, 'not suppressed' if sup else 'suppressed'), q)
    # leaving a context that was not entered
    for call in ('log.__exit__(None, None, None)', 'log.__exit__(ValueError, ValueError("text"), None)'):
        for pre in ('', 'with log:\n    pass\n'):
            for p in run(wr, pre + CALL % call):
                ctx.check(p.exc is None and p.var('raised') != NONE and len(records(p)) == (1 if pre else 0), 'not-entered', 'polog/loggers/router.py:Router', '%s%s is not refused' % (call, ' after a context' if pre else ''), p)
    # one object is one context or one decorator
    for first, n in (('with h:\n    pass\n', 1), ('g = h(f)\n', 0)):
        for second in ('h.__enter__()', 'h(f)'):
            if n and second == 'h(f)':
                continue
            for p in run(wr, 'h = log(MSG)\n' + first + CALL % second):
                ctx.check(p.exc is None and p.var('raised') != NONE and len(records(p)) == n, 'used-once', CMC, '%s after %r is not refused' % (second, first), p)
    for r, n in (('propagates', 20), ('suppressed', 20), ('one-record', 50), ('nested', 6)):
        ctx.floor(r, n)


def LEVEL_OF_CM(form, e):
    d = 'S_default_level' if e is None else 'S_default_error_level'
    if 'level' not in form:
        return d
    if form == 'with log(level)':
        return 'LVL'
    return 'REG["any_level"] if "any_level" in REG else %s' % d


# ---------------------------------------------------------------- C04 / C05
NORMAL = {
    'bare': 'S_default_level', 'empty': 'S_default_level', 'message': 'S_default_level', 'flog': 'S_default_level',
    'level': 'LVL', 'both': 'LVL', 'errors_level': 'S_default_level', 'errors_level_name': 'S_default_level',
    'level_name': 'REG[LNAME] if LNAME in REG else S_default_level',
    'both_names': 'REG[LNAME] if LNAME in REG else S_default_level',
    'dot_level': 'REG["any_level"] if "any_level" in REG else S_default_level',
    'dot_level_call': 'REG["any_level"] if "any_level" in REG else S_default_level',
    'suppress_all': 'S_default_level', 'suppress_some': 'S_default_level',
}
DEF_ERR = 'max(S_default_level, S_default_error_level)'
ERROR = {
    'bare': DEF_ERR, 'empty': DEF_ERR, 'message': DEF_ERR, 'flog': DEF_ERR, 'suppress_all': DEF_ERR, 'suppress_some': DEF_ERR,
    'level': 'max(S_default_level, S_default_error_level, LVL)',
    'errors_level': 'ELVL', 'both': 'ELVL',
    'errors_level_name': 'REG[ELNAME] if ELNAME in REG else ' + DEF_ERR,
    'level_name': 'max(S_default_level, S_default_error_level, REG[LNAME]) if LNAME in REG else ' + DEF_ERR,
    'both_names': 'REG[ELNAME] if ELNAME in REG else (max(S_default_level, S_default_error_level, REG[LNAME]) if LNAME in REG else %s)' % DEF_ERR,
    'dot_level': 'max(S_default_level, S_default_error_level, REG["any_level"]) if "any_level" in REG else ' + DEF_ERR,
    'dot_level_call': 'max(S_default_level, S_default_error_level, REG["any_level"]) if "any_level" in REG else ' + DEF_ERR,
}


def c04(ctx):
    w = world(ctx)
    for form, kind, user, p in decorated(ctx, w, FORMS):
        calls = p.calls(user)
        if len(calls) != 1:
            ctx.fail('one-call', CONSTRUCT[kind], 'the wrapped function is called %d times' % len(calls), p)
            continue
        e = calls[0].data['raised']
        recs = records(p)
        c = CONSTRUCT[kind]
        if e is not None and 'BaseException' in e.tags:
            ctx.check(len(recs) == 0, 'no-record-for-non-errors', c, '%d records for an exception that is not an Exception' % len(recs), p)
            continue
        for q, want in p.decide('(%s) >= S_level' % (NORMAL if e is None else ERROR)[form]):
            ctx.check(len(recs) == (1 if want else 0), 'one-record' if e is None else 'one-error-record', c,
                      'form "%s": %d records are written, expected %d' % (form, len(recs), 1 if want else 0), q)
    # nested decorated calls and one exception passing through all of them
    lv = [Sym('errors_level_%d' % i, {'int', 'rank', 'nonneg', 'notnone'}) for i in range(3)]
    src = '''
g1 = log(errors_level=L0)(f)
@log(errors_level=L1)
def mid(*a, **k):
    return g1(*a, **k)
@log(errors_level=L2)
def outer(*a, **k):
    return mid(*a, **k)
raised = None
try:
    outer()
except BaseException as exc:
    raised = exc
'''
    asrc = src.replace('def ', 'async def ').replace('(f)', '(af)').replace('return ', 'return await ').replace('    outer()', '    await outer()')
    for kind, user, s in (('sync', USER, src), ('async', AUSER, asrc)):
        for p in run(w, s, L0=lv[0], L1=lv[1], L2=lv[2]):
            calls = p.calls(user)
            if p.exc is not None or len(calls) != 1 or calls[0].data['raised'] is None or 'BaseException' in calls[0].data['raised'].tags:
                continue
            got = []
            for r in records(p):
                for q, v in field(p, r, 'level'):
                    got.append(v)
            e = calls[0].data['raised']
            spec = '((L0 >= S_level), (L1 >= S_level) and not (S_deduplicate_errors and L0 >= S_level), (L2 >= S_level) and not (S_deduplicate_errors and (L0 >= S_level or L1 >= S_level)))'
            for q, v in p.eval(spec, L0=lv[0], L1=lv[1], L2=lv[2]):
                states = [(q.st, [])]
                for x in v.items:
                    states = [(s2, acc + [b]) for s, acc in states for s2, b in w.it.truth(s, x)]
                for s, bs in states:
                    want = [l for l, b in zip(lv, bs) if b]
                    ctx.check(got == want, 'one-exception-one-record', CONSTRUCT[kind], 'an exception passing through three decorated calls is recorded by %r, expected %r' % (got, want), q)
                    ctx.check(p.var('raised') == e, 'propagates', CONSTRUCT[kind], 'the exception does not reach the caller', q)
    # manual records
    for name, call in MANUAL.items():
        for p in [q for p in run(w, 'h = %s\n' % call) for q in after_finalizers(p)]:
            c = MANUALC
            if not ctx.check(p.exc is None, 'manual', c, '%s raises %s' % (name, p.show_exc()), p):
                continue
            for q, want in p.decide('(%s) >= S_level' % MANUAL_LEVEL[name]):
                ctx.check(len(records(p)) == (1 if want else 0), 'manual', c, '%s: %d records, expected %d' % (name, len(records(p)), 1 if want else 0), q)
    for r, n in (('one-record', 60), ('one-error-record', 60), ('one-exception-one-record', 20), ('manual', 10), ('no-record-for-non-errors', 14)):
        ctx.floor(r, n)


MANUALC = 'polog/loggers/handle/handle_log.py:BaseLogger'
EXC = Sym(('exc', 'user'), {'exc', 'Exception', 'user'})
MANUAL = {
    'handle_log(message)': 'handle_log(MSG)', 'handle_log(level)': 'handle_log(MSG, level=LVL)',
    'handle_log(success)': 'handle_log(MSG, success=True)', 'handle_log(failure)': 'handle_log(MSG, success=False)',
    'log(message)': 'log(MSG)', 'log(level)': 'log(MSG, level=LVL)', 'log(failure)': 'log(MSG, success=False)', 'log()': 'log()',
    'log(exception name)': 'log(MSG, e=LNAME)', 'handle_log(exception name)': 'handle_log(MSG, e=LNAME)',
    'log(exception)': 'log(MSG, e=ValueError(MSG))',
}
MANUAL_LEVEL = {
    'handle_log(message)': 'S_default_level', 'handle_log(level)': 'LVL', 'handle_log(success)': 'S_default_level', 'handle_log(failure)': 'S_default_error_level',
    'log(message)': 'S_default_level', 'log(level)': 'LVL', 'log(failure)': 'S_default_error_level', 'log()': 'S_default_level',
    'log(exception name)': 'S_default_error_level', 'handle_log(exception name)': 'S_default_error_level', 'log(exception)': 'S_default_error_level',
}


def armed(p):
    """callbacks registered to run when an abandoned router result is collected, and not detached"""
    out = []
    for e in p.events('call'):
        if e.data['name'] == 'weakref.finalize' and e.data['raised'] is None:
            out.append((e.data['result'], e.data['pack']))
    gone = [e.data['callee'].base for e in p.events('call') if isinstance(e.data['callee'], MethV) and e.data['callee'].name == 'detach']
    return [(r, k) for r, k in out if r not in gone]


def after_finalizers(p):
    """the abandoned object is collected: run its callbacks -> [Path]"""
    ps = [p]
    for r, pack in armed(p):
        args = {('FIN%d' % i): x for i, x in enumerate(pack.pos)}
        args.update({'FINK_' + k: v for k, v in pack.kw.items()})
        call = 'FIN1(%s)' % ', '.join(['FIN%d' % i for i in range(2, len(pack.pos))] + ['%s=FINK_%s' % (k, k) for k in pack.kw])
        ps = [q for p in ps for q in p.run(call, **args)]
    return ps


def c05(ctx):
    w = world(ctx)
    for form, kind, user, p in decorated(ctx, w, FORMS):
        calls = p.calls(user)
        recs = records(p)
        if len(calls) != 1 or len(recs) != 1:
            continue
        e = calls[0].data['raised']
        if e is not None and 'BaseException' in e.tags:
            continue
        spec = (NORMAL if e is None else ERROR)[form]
        for q, same in p.decide('REC["level"] == (%s)' % spec, REC=recs[0].data['log']):
            ctx.check(same, 'level-of-success' if e is None else 'level-of-error', CONSTRUCT[kind], 'form "%s": the level of the record is not %s' % (form, spec), q)
        ctx.sample('%s/%s %s: level == %s' % (form, kind, 'success' if e is None else 'error', spec))
    for name, call in MANUAL.items():
        for p in [q for p in run(w, 'h = %s\n' % call) for q in after_finalizers(p)]:
            for r in records(p):
                for q, same in p.decide('REC["level"] == (%s)' % MANUAL_LEVEL[name], REC=r.data['log']):
                    ctx.check(same, 'level-of-manual', MANUALC, '%s: the level of the record is not %s' % (name, MANUAL_LEVEL[name]), q)
    # attribute access to a registered level
    for call in ('handle_log.any_level(MSG)', 'log.any_level(MSG)'):
        for p in [q for p in strict_ok(run(w, 'h = %s\n' % call), True) for q in after_finalizers(p)]:
            for r in records(p):
                for q, same in p.decide('REC["level"] == (REG["any_level"] if "any_level" in REG else S_default_level)', REC=r.data['log']):
                    ctx.check(same, 'level-of-manual', MANUALC, '%s: the level of the record is not that of the name' % call, q)
    # an explicit level wins over the level of the attribute
    for call, fn in (('log.any_level(MSG, level=LVL)', None), ('log.any_level(level=LVL)', None), ('log.any_level(level=LVL)(f)', 'g')):
        for p in [q for p in strict_ok(run(w, 'g = %s\n%s' % (call, 'g()' if fn else '')), True) for q in after_finalizers(p)]:
            if p.calls(USER) and p.calls(USER)[0].data['raised'] is not None:
                continue
            for r in records(p):
                for q, same in p.decide('REC["level"] == LVL', REC=r.data['log']):
                    ctx.check(same, 'explicit-level', 'polog/loggers/partial.py:RouterPartial', '%s: the explicitly given level is not used' % call, q)
    for r, n in (('level-of-success', 40), ('level-of-error', 60), ('level-of-manual', 15), ('explicit-level', 3)):
        ctx.floor(r, n)
