"""Time limits, and the built-in name of the logger."""
from .decor import *

TL = 'polog/core/utils/time_limit.py:time_limit'
BI = 'polog/core/stores/settings/actions/set_log_as_built_in.py:set_log_as_built_in'
DELAY = Sym('delay', {'user', 'notnone'})
NUM = Sym('number_of_seconds', {'int', 'rank', 'notnone'})
FLO = Sym('fraction_of_seconds', {'float', 'rank', 'notnone'})
LIM = '''
from polog.core.utils.time_limit import time_limit
def d():
    return WAIT()
'''
WAIT = Sym('user_delay', {'user', 'callable', 'function'})
# how the limit is given: the expression, and the term of the seconds (None: what the user function returned)
GIVEN = {'N': NUM, 'F': FLO, 'd': None, '5': Const(5), '0.5': Const(0.5)}
BAD = ('0', '-1', '0.0', '-0.5', '"1"', 'None', '[]', 'lambda x: 1', 'lambda *a: 1', 'lambda x=1: 1', 'lambda **k: 1', 'lambda *, x: 1')
TRY_ = 'raised = None\nr = None\ntry:\n    r = %s\nexcept BaseException as e:\n    raised = e\n'


def at(p, e):
    return [i for i, x in enumerate(p.events()) if x is e][0]


def timers(p, op):
    return [e for e in p.events('call') if e.data['name'] == ('threading.Timer' + op)]


def c35(ctx):
    w = world(ctx, UserPolicy(raises=('Exception', 'BaseException'), extra={WAIT: ('Exception',)}), levels=False)
    b = dict(N=NUM, F=FLO, WAIT=WAIT)
    for given, term in GIVEN.items():
        for p in run(w, LIM + TRY_ % ('time_limit(%s)' % given), **b):
            what = 'time_limit(%s)' % given
            if term in (NUM, FLO):
                for q, ok in p.decide('%s > 0' % given, **b):
                    ctx.check((q.var('raised') == NONE) == ok, 'accepted', TL, '%s with a number that is %spositive: %s' % (what, '' if ok else 'not ', q.var('raised')), q)
                    if ok and q.var('raised') == NONE:
                        limited(ctx, w, q, what, term, b)
            elif ctx.check(p.var('raised') == NONE, 'accepted', TL, '%s is refused' % what, p):
                limited(ctx, w, p, what, term, b)
    for given in BAD:
        for p in run(w, LIM + TRY_ % ('time_limit(%s)' % given), **b):
            for q, ok in p.decide('isinstance(R, ValueError)', R=p.var('raised')):
                ctx.check(ok, 'refused', TL, 'time_limit(%s) is not refused with ValueError (%r)' % (given, p.var('raised')), q)
    for r, n in (('called-once', 10), ('outcome', 10), ('cancelled', 5), ('limit', 5), ('refused', len(BAD))):
        ctx.floor(r, n)


def limited(ctx, w, p, what, term, b):
    ps = p.run('g = r(f)\nr = None\n' + CALL % 'r = g(*A, **K)', **b)
    ctx.need(ps, 'no path of a limited call')
    for q in ps:
        calls = q.calls(USER)
        if not ctx.check(q.exc is None and len(calls) == 1, 'called-once', TL, '%s: the function is called %d times (%s)' % (what, len(calls), q.show_exc()), q):
            continue
        e = calls[0]
        ctx.check(same_pack(q, e.data['pack']), 'called-once', TL, '%s: the function gets other arguments' % what, q)
        made, started, cancelled = timers(q, ''), timers(q, '.start'), timers(q, '.cancel')
        ctx.check(len(started) <= 1 and all(any(c.data.get('self') == s.data.get('self') for c in cancelled) for s in started), 'cancelled', TL, '%s: a timer is left running after the call' % what, q)
        ctx.check(not started or at(q, started[0]) < at(q, e), 'limit', TL, '%s: the timer is started after the call' % what, q)
        ctx.check(all(at(q, c) > at(q, e) for c in cancelled), 'limit', TL, '%s: the timer is cancelled before the call is over' % what, q)
        waits = q.calls(WAIT)
        if term is None:
            ctx.check(len(waits) == 1 and at(q, waits[0]) < at(q, e), 'limit', TL, '%s: the limit is not asked for before the call' % what, q)
            if not waits:
                continue
            secs = waits[0].data['result'] if waits[0].data['raised'] is None else None
        else:
            secs = term
        for x, ok in q.decide('(isinstance(D, int) or isinstance(D, float)) and D > 0', D=secs) if secs is not None else [(q, False)]:
            ctx.check(bool(started) == ok, 'limit', TL, '%s: %s' % (what, 'no timer is started' if ok else 'a timer is started although there is no limit'), x)
            if started and made:
                ctx.check(made[-1].data['pack'].pos[:1] == (secs,) or list(made[-1].data['pack'].pos[:1]) == [secs] or made[-1].data['pack'].kw.get('interval') == secs, 'limit', TL, '%s: the timer runs for %r, expected %r' % (what, made[-1].data['pack'].pos[:1], secs), x)
            raised = e.data['raised']
            if raised is None:
                ctx.check(x.var('raised') == NONE and x.var('r') == e.data['result'], 'outcome', TL, '%s: the caller does not get the result' % what, x)
                continue
            for y, interrupt in x.decide('isinstance(X, KeyboardInterrupt)', X=raised) if started else [(x, False)]:
                if interrupt:
                    for z, to in y.decide('isinstance(R, TimeoutError)', R=y.var('raised')):
                        ctx.check(to, 'outcome', TL, '%s: an interrupt does not become TimeoutError' % what, z)
                else:
                    ctx.check(y.var('raised') == raised, 'outcome', TL, '%s: the exception of the function does not reach the caller unchanged' % what, y)
        # the next call has a limit of its own
        if term is None or term == Const(5):
            k = len(q.events())
            for x in q.run(CALL % 'r = g(*A, **K)', **b):
                asked = [y for y in x.calls(WAIT) if at(x, y) >= k]
                again = [y for y in timers(x, '') if at(x, y) >= k]
                runs = [y for y in x.calls(USER) if at(x, y) >= k]
                if not ctx.check(x.exc is None and len(runs) == 1 and len(asked) == (term is None), 'limit', TL, '%s: at a second call the function is called %d times and the limit asked for %d times' % (what, len(runs), len(asked)), x):
                    continue
                secs = term if term is not None else asked[0].data['result'] if asked[0].data['raised'] is None else None
                for y, ok in x.decide('(isinstance(D, int) or isinstance(D, float)) and D > 0', D=secs) if secs is not None else [(x, False)]:
                    ctx.check(len(again) == ok and all((t.data['pack'].pos[:1] or (t.data['pack'].kw.get('interval'),))[0] == secs for t in again), 'limit', TL, '%s: a second call does not have the limit %r' % (what, secs), y)
        # the timer interrupts the main thread and does nothing else
        if made:
            fn = made[-1].data['pack'].pos[1] if len(made[-1].data['pack'].pos) > 1 else made[-1].data['pack'].kw.get('function')
            if fn is None:
                ctx.fail('limit', TL, '%s: the timer has nothing to do' % what, q)
                continue
            k = len(q.events())
            for x in q.run('FN()\n', FN=fn):
                done = [y for y in x.events()[k:] if y.kind == 'call' and 'interrupt_main' in str(y.data['name'])]
                ctx.check(x.exc is None and len(done) == 1, 'limit', TL, '%s: the timer does not interrupt the main thread' % what, x)


HIST = ('True', 'False', 'True False', 'False True', 'True True', 'True False True', 'False False', 'True False False', 'False True False')
SHOW = 'import builtins\nseen = hasattr(builtins, "log")\nsame = seen and builtins.log is log\n'


def c36(ctx):
    w = world(ctx, levels=False, fixed={'log_is_built_in': None})

    def see(p, want, what):
        for q in p.run(SHOW):
            ctx.check(q.exc is None and q.var('seen') == Const(want) and (not want or q.var('same') == TRUE), 'built-in', BI, '%s: log is %sa built-in name%s' % (what, '' if q.exc is None and q.var('seen') == TRUE else 'not ', '' if q.exc is None else ' (%s)' % q.show_exc()), q)
    for p in run(w, ''):
        see(p, False, 'at the start')
    for h in HIST:
        for p in run(w, ''.join('config.set(log_is_built_in=%s)\n' % x for x in h.split())):
            if ctx.check(p.exc is None, 'built-in', BI, 'log_is_built_in = %s raises %s' % (h, p.show_exc()), p):
                see(p, h.split()[-1] == 'True', 'after log_is_built_in = %s' % h)
    ctx.floor('built-in', 10)


# ---------------------------------------------------------------- C37
ME = 'polog/handlers/memory/saver.py:memory_saver'
OPS = {'r': 'h(R1)\n', 's': 'h(R2)\n', 'c': 'h.clean()\n', 'n': 'h = memory_saver()\n'}


def c37(ctx):
    w = world(ctx, levels=False)
    recs = {'r': Sym('record_1', {'notnone'}), 's': Sym('record_2', {'notnone'})}
    bound = 5 if ctx.tier == 'thorough' else 4
    start = run(w, 'from polog.handlers.memory.saver import memory_saver\nh = memory_saver()\nfirst = h\n', R1=recs['r'], R2=recs['s'])
    ctx.need(start, 'no path')
    todo = [(p, '', []) for p in start]
    while todo:
        p, hist, want = todo.pop()
        for q in p.run('seen = list(h.all)\nlast = h.last\nsame = h is first\n'):
            if not ctx.check(q.exc is None, 'memory', ME, 'after %r: %s' % (hist, q.show_exc()), q):
                continue
            ctx.check(list(q.st.obj(q.var('seen')).items) == want, 'memory', ME, 'after the history %r the records are %r, expected %r' % (hist, q.st.obj(q.var('seen')).items, want), q)
            ctx.check(q.var('last') == (want[-1] if want else NONE), 'memory', ME, 'after the history %r the last record is %r' % (hist, q.var('last')), q)
            ctx.check(q.var('same') == TRUE, 'one-object', ME, 'after the history %r there is another object' % hist, q)
        if len(hist) < bound:
            for k, src in OPS.items():
                for q in p.run(src):
                    if ctx.check(q.exc is None, 'memory', ME, 'after the history %r: %s raises %s' % (hist, src.strip(), q.show_exc()), q):
                        ctx.check(not q.st.locks, 'released', ME, 'after %r a lock stays taken' % (hist + k), q)
                        todo.append((q, hist + k, [] if k == 'c' else want + [recs[k]] if k in recs else want))
    for r, n in (('memory', 100), ('one-object', 50), ('released', 50)):
        ctx.floor(r, n)
