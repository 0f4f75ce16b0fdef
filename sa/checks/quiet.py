"""Switching logging off: unlog."""
from .decor import *

UC = 'polog/unlog.py:UnlogDecorator'
FULLS = {'bare': None, '(full=True)': True, '(full=False)': False}


class ProbePolicy(UserPolicy):
    """at every call of user code, look at the program from another thread or task"""
    probe = None

    def call(self, it, st, callee, name, pack, fr, n):
        if callee in (USER, AUSER) and self.probe is not None:
            f, self.probe = self.probe, None
            try:
                f(st)
            finally:
                self.probe = f
        return None


def silent(full):
    return 'S_full_unlog' if full is None else repr(full)


def c07(ctx):
    pol = ProbePolicy()
    w = world(ctx, pol, fixed={'level': Const(0), 'deduplicate_errors': FALSE, 'traceback_cutting': FALSE, 'suppress_by_default': FALSE})
    base = w.base

    def probe(st):
        s = other_context(st, base)
        for q in w.client(DEFS + 'handle_log(MSG)\n', st=s, **binds()):
            ctx.check(q.exc is None and len(records(q)) == 1, 'other-contexts', UC, 'a function excluded from logging silences other threads or tasks as well', q)

    for p in run(w, 'x = (-log) is unlog\ny = (-unlog) is log\nz = (- -log) is log\n'):
        ctx.check(p.exc is None and p.var('x') == TRUE and p.var('y') == TRUE and p.var('z') == TRUE, 'minus', UC, 'minus does not turn the logger into the exclusion and back (%s)' % p.show_exc(), p)
    # 1. the function itself never produces a record
    for form in FULLS:
        un = 'unlog' if form == 'bare' else 'unlog' + form
        for kind, (fn, call, user) in KINDS.items():
            for order, deco in (('unlog outside', 'g = %s(log(%s))' % (un, fn)), ('unlog inside', 'g = log(%s(%s))' % (un, fn)), ('unlog between', 'g = log(%s(log(%s)))' % (un, fn)),
                                ('negation', 'g = (-log)(log(%s))' % fn), ('with arguments', 'g = log(MSG, level=LVL)(%s(%s))' % (un, fn)), ('again', 'g = %s(log(MSG)(%s(log(%s))))' % (un, un, fn))):
                for p in run(w, deco + CALL % call):
                    if not ctx.check(p.exc is None, 'own-records', UC, '%s: decorating raises %s' % (order, p.show_exc()), p):
                        continue
                    calls = p.calls(user)
                    ctx.check(len(records(p)) == 0, 'own-records', UC, '%s %s: %d records are written for a function excluded from logging' % (order, form, len(records(p))), p)
                    if not ctx.check(len(calls) == 1, 'transparent', UC, '%s: the function is called %d times' % (order, len(calls)), p):
                        continue
                    e = calls[0].data['raised']
                    ctx.check(same_pack(p, calls[0].data['pack']), 'transparent', UC, '%s: other arguments' % order, p)
                    ctx.check(p.var('raised') == (NONE if e is None else e), 'transparent', UC, '%s: the exception of the function does not propagate' % order, p)
                    if e is None:
                        ctx.check(p.var('r') == calls[0].data['result'], 'transparent', UC, '%s: another result' % order, p)
    from .classes import body as class_body, CALLS, METHODS, M
    for what, deco in (('class', '@unlog\n'), ('decorated class', '@unlog\n@log(M1)\n'), ('class decorated afterwards', '@log(M1)\n@unlog\n'), ('class excluded with an argument', '@unlog(full=False)\n@log(M1)\n')):
        for name in METHODS:
            for p in run(w, deco + class_body() + 'T = P\no = T()\n' + CALL % CALLS[name], M1=M[0], ATTR=Const('attribute')):
                ctx.check(p.exc is None and not records(p), 'own-records', UC, 'excluded %s: %s writes %d records (%s)' % (what, CALLS[name], len(records(p)), p.show_exc()), p)
    # 2. what happens inside, and afterwards
    inner = {
        'decorated function': ('logged()', 'await logged()'),
        'manual record': ('handle_log(MSG)', 'handle_log(MSG)'),
        'context manager': ('with log(MSG):\n            pass', 'with log(MSG):\n            pass'),
        'failing decorated function': ('failing()', 'failing()'),
    }
    for form, full in FULLS.items():
        for form2, full2 in list(FULLS.items()) + [(None, 0)]:
            for what, (body, abody) in inner.items():
                for kind, over in (('sync', False), ('async', False), ('sync', True)):
                    if over and (form2 is not None or what != 'manual record') and ctx.tier == 'quick':
                        continue
                    if (what != 'decorated function' or kind == 'async') and form2 is not None and ctx.tier == 'quick' and what not in ('manual record', 'failing decorated function'):
                        continue
                    un = 'unlog' if form == 'bare' else 'unlog' + form
                    pol.probe = probe if form2 is None or ctx.tier != 'quick' else None
                    src = '''
logged = log(%s)
@log
def failing():
    raise ValueError(MSG)
''' % ('f' if kind == 'sync' else 'af')
                    b = (body if kind == 'sync' else abody)
                    aw = '' if kind == 'sync' else 'await '
                    d = 'def' if kind == 'sync' else 'async def'
                    if form2 is not None:
                        un2 = 'unlog' if form2 == 'bare' else 'unlog' + form2
                        src += '''
@%s
%s mid():
    try:
        %s
    except ValueError:
        pass
    %s
''' % (un2, d, b, 'USER()' if kind == 'sync' else 'await AUSER()')
                        steps = '%smid()' % aw
                    else:
                        steps = b
                    src += '''
@%s
%s quiet():
    try:
        %s
    except ValueError:
        pass
    handle_log(MARK)
    %s
%s
raised = None
try:
    %squiet()
except BaseException as exc:
    raised = exc
handle_log(AFTER)
''' % (un, d, steps, 'USER()' if kind == 'sync' else 'await AUSER()', 'quiet = log(MSG)(quiet)' if over else '', aw)
                    mark, aft = Sym('mark', {'str', 'notnone'}), Sym('after', {'str', 'notnone'})
                    for p in run(w, src, MARK=mark, AFTER=aft):
                        if not ctx.check(p.exc is None, 'inside', UC, 'raises %s' % p.show_exc(), p):
                            continue
                        ms = [field(p, r, 'message')[0][1] for r in records(p)]
                        reached = mark in [e.data['args'].get('args', TupleV(())).items[0] if isinstance(e.data['args'].get('args'), TupleV) and e.data['args']['args'].items else None
                                           for e in p.events('enter') if e.data['qual'].endswith('__call__')]
                        ctx.check(ms.count(aft) == 1 and ms and ms[-1] == aft, 'restored', UC, 'unlog %s: logging is not back on after the function has returned or raised (records: %r)' % (form, ms), p)
                        if reached:
                            for q, sil in p.decide(silent(full)):
                                ctx.check(ms.count(mark) == (0 if sil else 1), 'restored' if form2 is not None else 'inside', UC,
                                          'unlog %s%s: %d records of the body, expected %d' % (form, '' if form2 is None else ' after a nested function with unlog %s' % form2, ms.count(mark), 0 if sil else 1), q)
                        rest = [m for m in ms if m not in (mark, aft)]
                        for q, sil in p.decide(silent(full if form2 is None else full2)):
                            if sil:
                                ctx.check(not rest, 'inside', UC, 'unlog %s: a %s inside writes %d records' % (form if form2 is None else form2, what, len(rest)), q)
                            else:
                                ran = what == 'manual record' or what == 'context manager' or what.startswith('failing')
                                us = [c for c in p.calls(USER) + p.calls(AUSER)][:1]
                                if what == 'decorated function':
                                    ran = bool(us) and not (us[0].data['raised'] is not None and 'BaseException' in us[0].data['raised'].tags)
                                if ran:
                                    ctx.check(len(rest) == 1, 'inside', UC, 'unlog %s: a %s inside writes %d records although nested records are allowed' % (form if form2 is None else form2, what, len(rest)), q)
    for r, n in (('own-records', 60), ('inside', 60), ('restored', 60), ('other-contexts', 30)):
        ctx.floor(r, n)
