"""Smart asserts."""
from .decor import *
from .manual import release, fire, content

SA = 'polog/loggers/handle/smart_assert.py:SmartAssert'
COND = Sym('condition', {'user'})
GIVEN = Sym('given_message', {'user', 'notnone'})
TEXT = Sym('given_text', {'str', 'notnone'})
POLITIC = {'': False, 'config.set(smart_assert_politic="if_debug")\n': False, 'config.set(smart_assert_politic="all")\n': True,
           'config.set(smart_assert_politic="all")\nconfig.set(smart_assert_politic="if_debug")\n': False, 'config.set(smart_assert_politic="if_debug")\nconfig.set(smart_assert_politic="all")\n': True}
# arguments: text of the message, in terms of the arguments
ARGS_ = {'C, T': 'T', 'C': 'str(C)', 'C, G': 'str(G)', 'False': '"False"', 'False, T': 'T', '0, T': 'T', 'None, T': 'T', '[], T': 'T', '"", T': 'T', 'True, T': 'T', '[1], T': 'T', '"", ""': '""'}


class Hostile(UserPolicy):
    user_str_raises = True
    user_bool_raises = True


def c29(ctx):
    fixed = {'level': Const(0), 'full_unlog': FALSE, 'service_name': NONE, 'smart_assert_politic': None, 'fields_intersection': FALSE}
    w = world(ctx, Hostile(raises=('Exception',)), levels=False, fixed=fixed)
    kw = dict(C=COND, G=GIVEN, T=TEXT)

    def job(j):
        pre, both, args, text = j
        what = '%sass(%s)' % (pre.replace('\n', '; '), args)
        for p in run(w, 'from polog import ass\n' + pre + CALL % ('ass(%s)' % args), **kw):
            if not ctx.check(p.exc is None, 'raises', SA, '%s: %s' % (what, p.show_exc()), p):
                continue
            cond = args.split(',')[0]
            raised = p.var('raised')
            live = release(p)
            n = len(live) + len(records(p))
            for p, debug in p.decide('S_debug_mode'):
                for q in p.run('try:\n    truth_ = bool(%s)\nexcept Exception:\n    truth_ = None\n' % cond, **kw):
                    true = {TRUE: True, FALSE: False}.get(q.var('truth_'))
                    if true is None:
                        # a condition without a truth value: never anything but a failed assertion
                        ok = raised == NONE or (debug and all(r for _, r in q.decide('isinstance(R, AssertionError)', R=raised)))
                        ctx.check(ok, 'hostile', SA, '%s breaks on a condition without a truth value: %s' % (what, w.it.describe_exc(q.st, raised)), q)
                        continue
                    fails = debug and not true
                    if not ctx.check((raised != NONE) == fails, 'raises', SA, '%s with a condition that is %s, debug mode %s: raised %s' % (what, 'true' if true else 'false', 'on' if debug else 'off', w.it.describe_exc(q.st, raised)), q):
                        continue
                    want = 0 if true else (1 if not debug or both else 0)
                    if not ctx.check(n == want, 'recorded', SA, '%s with a condition that is %s, debug mode %s: %d records, expected %d' % (what, 'true' if true else 'false', 'on' if debug else 'off', n, want), q):
                        continue
                    told = all(q.st.facts.get(('strok', x)) is not False for x in (COND, GIVEN) if ('C' if x == COND else 'G') in text)
                    if fails:
                        for q2, ok in q.decide('isinstance(R, AssertionError) and len(R.args) == 1 and ' + ('R.args[0] == %s' % text if told else 'isinstance(R.args[0], str)'), R=raised, **kw):
                            ctx.check(ok, 'message', SA, '%s: the assertion is not raised as AssertionError with its message' % what, q2)
                    for q2s in [[q]] if records(q) else [fire(q, r) for r in live]:
                        for q2 in q2s:
                            rs = records(q2)
                            if ctx.check(len(rs) == 1 and q2.exc is None, 'recorded', SA, '%s: %d records' % (what, len(rs)), q2):
                                content(ctx, 'content', what, SA, q2, rs[0].data['log'], {**({'message': text, 'exception_message': text} if told else {}), 'exception_type': '"AssertionError"', 'success': 'False', 'level': 'S_default_error_level', 'auto': 'False'})
    ctx.spread([(pre, both, a, t) for pre, both in POLITIC.items() for a, t in ARGS_.items()], job)
    for args in ('True, T, T', 'False, T, T', 'True, T, T, T'):
        for p in run(w, 'from polog import ass\n' + CALL % ('ass(%s)' % args), **kw):
            for q, loud in p.decide('not S_silent_internal_exceptions'):
                if loud:
                    for q2, r in q.decide('isinstance(R, TypeError)', R=q.var('raised')):
                        ctx.check(r and q.exc is None, 'arguments', SA, 'ass(%s) is not refused with TypeError although errors are not silenced' % args, q2)
                else:
                    for q2, debug in q.decide('S_debug_mode'):
                        ctx.check((q.var('raised') != NONE) == (debug and 'False' in args), 'arguments', SA, 'ass(%s) with silenced errors and debug mode %s: raised %r' % (args, debug, q.var('raised')), q2)
    for r, n in (('raises', 40), ('recorded', 40), ('message', 10), ('content', 10), ('hostile', 2)):
        ctx.floor(r, n)
