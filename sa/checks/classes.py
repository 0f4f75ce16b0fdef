"""Several decorators on one function, decorated classes: one record per call, by the decorator that has priority."""
from .decor import *

CL = 'polog/loggers/auto/class_logger.py:ClassLogger'
RF = 'polog/core/stores/registering_functions.py:RegisteringFunctions'
UNPACK = 'polog/core/utils/unpack_method.py:unpack_method'
M = [Sym('message_%d' % i, {'str', 'notnone'}) for i in range(1, 5)]
ATTR = Const('attribute')
CDEFS = '''
class %(name)s%(bases)s:
    attr = ATTR
    class Inner:
        def deep(self):
            return USER(*A, **K)
    %(deco)s
    def m(self, *a, **k):
        return USER(*a, **k)
    def n(self, *a, **k):
        return USER(*a, **k)
    def _p(self, *a, **k):
        return USER(*a, **k)
    @staticmethod
    def s(*a, **k):
        return USER(*a, **k)
    @classmethod
    def c(cls, *a, **k):
        return USER(*a, **k)
    async def am(self, *a, **k):
        return await AUSER(*a, **k)
    def __call__(self, *a, **k):
        return USER(*a, **k)
'''
CALLS = {'m': 'o.m(*A, **K)', 'n': 'o.n(*A, **K)', '_p': 'o._p(*A, **K)', 's': 'o.s(*A, **K)', 'S': 'T.s(*A, **K)', 'c': 'o.c(*A, **K)', 'C': 'T.c(*A, **K)', 'am': 'await o.am(*A, **K)', 'call': 'o(*A, **K)', 'deep': 'T.Inner().deep()',
         'unbound': 'T.n(o, *A, **K)'}
METHODS = ('m', 'n', '_p', 's', 'S', 'c', 'C', 'am', 'unbound')


def body(name='P', bases='', deco=''):
    return CDEFS % dict(name=name, bases=bases, deco=deco or 'attr2 = 1')


# name: (program that leaves the class in T, {call: message of its record or None})
def cases():
    every = lambda m: {**{k: m for k in METHODS}, 'call': None, 'deep': None}
    out = {
        'class': ('@log\n' + body() + 'T = P\n', every(NONE)),
        'class with arguments': ('@log(M1, level=5)\n' + body() + 'T = P\n', every(M[0])),
        'class with a level name': ('@log.error\n' + body() + 'T = P\n', every(NONE)),
        'class decorated later': (body() + 'T = log(M1)(P)\n', every(M[0])),
        'clog': (body() + 'T = clog(False, [], message=M1)(P)\n', every(M[0])),
        'class decorated twice': ('@log(M2)\n@log(M1)\n' + body() + 'T = P\n', every(M[1])),
        'method with its own decorator': ('@log(M1)\n' + body(deco='@log(M2)') + 'T = P\n', {**every(M[0]), 'm': M[1]}),
        'method with two decorators': ('@log(M1)\n' + body(deco='@log(M3)\n    @log(M2)') + 'T = P\n', {**every(M[0]), 'm': M[2]}),
        'class decorated twice, method with its own decorator': ('@log(M3)\n@log(M1)\n' + body(deco='@log(M2)') + 'T = P\n', {**every(M[2]), 'm': M[1]}),
        'method decorated after the class': ('@log(M1)\n' + body() + 'P.m = log(M2)(P.m)\nT = P\n', {**every(M[0]), 'm': M[1]}),
        'method decorated between': ('@log(M1)\n' + body() + 'P.m = log(M2)(P.m)\nT = log(M3)(P)\n', {**every(M[2]), 'm': M[1]}),
        'excluded method': ('@log(M1)\n' + body(deco='@unlog') + 'T = P\n', {**every(M[0]), 'm': None}),
        'method excluded later': ('@log(M1)\n' + body() + 'P.m = unlog(P.m)\nT = P\n', {**every(M[0]), 'm': None}),
        'excluded method, class decorated twice': ('@log(M2)\n@log(M1)\n' + body(deco='@unlog') + 'T = P\n', {**every(M[1]), 'm': None}),
        'excluded class': ('@unlog\n@log(M1)\n' + body() + 'T = P\n', {**every(None)}),
        'chosen methods': ('@log(M1, methods=("m", "s", "c"))\n' + body() + 'T = P\n', {**every(None), 'm': M[0], 's': M[0], 'S': M[0], 'c': M[0], 'C': M[0]}),
        'chosen methods in a list': ('@log(M1, methods=["n", "am"])\n' + body() + 'T = P\n', {**every(None), 'n': M[0], 'unbound': M[0], 'am': M[0]}),
        'a chosen special method': ('@log(M1, methods=("__call__",))\n' + body() + 'T = P\n', {**every(None), 'call': M[0]}),
        'chosen methods, one of them special': ('@log(M1, methods=("__call__", "m"))\n' + body() + 'T = P\n', {**every(None), 'call': M[0], 'm': M[0]}),
        'chosen methods, one excluded': ('@log(M1, methods=("m", "n"))\n' + body(deco='@unlog') + 'T = P\n', {**every(None), 'n': M[0], 'unbound': M[0]}),
        'chosen method, one with its own decorator': ('@log(M1, methods=("m", "n"))\n' + body(deco='@log(M2)') + 'T = P\n', {**every(None), 'm': M[1], 'n': M[0], 'unbound': M[0]}),
    }
    child = 'class T(P):\n    def q(self):\n        pass\n'
    over = 'class T(P):\n    def m(self, *a, **k):\n        return USER(*a, **k)\n'
    out.update({
        'child of a class': ('@log(M1)\n' + body() + child, every(M[0])),
        'decorated child of a decorated class': ('@log(M1)\n' + body() + '@log(M2)\n' + child, every(M[1])),
        'parent of a decorated child': ('@log(M1)\n' + body() + '@log(M2)\n' + child + 'T = P\n', every(M[0])),
        'decorated child of a plain class': (body() + '@log(M2)\n' + child, every(M[1])),
        'plain parent of a decorated child': (body() + '@log(M2)\n' + child + 'T = P\n', every(None)),
        'child with an own plain method': ('@log(M1)\n' + body() + over, {**every(M[0]), 'm': None}),
        'decorated child with an own method': ('@log(M1)\n' + body() + '@log(M2)\n' + over, every(M[1])),
        'child with chosen methods': ('@log(M1)\n' + body() + '@log(M2, methods=("m",))\n' + child, {**every(None), 'm': M[1]}),
        'parent of a child with chosen methods': ('@log(M1)\n' + body() + '@log(M2, methods=("m",))\n' + child + 'T = P\n', every(M[0])),
        'second decorated child of a decorated class': ('@log(M1)\n' + body() + '@log(M2)\nclass O(P):\n    pass\n@log(M3)\n' + child, every(M[2])),
        'second decorated child, method with its own decorator': ('@log(M1)\n' + body(deco='@log(M4)') + '@log(M2)\nclass O(P):\n    pass\n@log(M3)\n' + child, {**every(M[2]), 'm': M[3]}),
        'child next to a child with its own decorator': ('@log(M1)\n' + body() + 'class O(P):\n    m = log(M4)(P.m)\n@log(M3)\n' + child, every(M[2])),
        'decorated grandchild': ('@log(M1)\n' + body() + '@log(M2)\nclass O(P):\n    pass\n@log(M3)\nclass T(O):\n    pass\n', every(M[2])),
        'parent decorated again after its child': ('@log(M1)\n' + body() + '@log(M2)\n' + child + 'T = log(M3)(P)\n', every(M[2])),
        'child of a parent decorated again after it': ('@log(M1)\n' + body() + '@log(M2)\n' + child + 'log(M3)(P)\n', every(M[1])),
        'excluded child of a decorated class': ('@log(M1)\n' + body() + '@unlog\n' + child, every(None)),
        'parent of an excluded child': ('@log(M1)\n' + body() + '@unlog\n' + child + 'T = P\n', every(M[0])),
        'child of a class with a decorated method': ('@log(M1)\n' + body(deco='@log(M3)') + '@log(M2)\n' + child, {**every(M[1]), 'm': M[2]}),
    })
    return out


STACKS = {
    'two': ('g = log(M2)(log(M1)(%s))', 1),
    'three': ('g = log(M3)(log(M2)(log(M1)(%s)))', 2),
    'first without arguments': ('g = log(M2)(log(%s))', 1),
    'level and message': ('g = log(M2, level=5)(log.error(M1)(%s))', 1),
    'suppressing below': ('g = log(M2)(log(M1).suppress()(%s))', 1),
    'flog': ('g = flog(False, [], message=M2)(flog(False, [], message=M1)(%s))', 1),
    'decorated again after calls': ('g = log(M1)(%s)\nh = g\ng = log(M2)(h)', 1),
    'the last one without arguments': ('g = log(log(M1)(%s))', None),
    'two independent decorations': ('k = log(M1)(%s)\ng = log(M2)(f)', 1),
    'an older wrapper decorated again': ('k = log(M1)(%s)\nlog(M2)(k)\ng = log(M3)(k)', 2),
    'an older wrapper': ('g = log(M1)(%s)\nlog(M2)(g)', 0),
    'six': ('g = log(M4)(log(M3)(log(M2)(log(M1)(log(M2)(log(M1)(%s))))))', 3),
}


def outcome(ctx, rule, construct, what, p, user, want, args=True):
    """one call: the original once with these arguments, its result or exception, and the record of one decorator"""
    if not ctx.check(p.exc is None, 'decorated', construct, '%s: %s' % (what, p.show_exc()), p):
        return
    calls = [e for e in p.calls(USER) + p.calls(AUSER)]
    if not ctx.check(len(calls) == 1, 'transparent', construct, '%s: the original is called %d times' % (what, len(calls)), p):
        return
    e = calls[0].data
    ctx.check(not args or same_pack(p, e['pack']), 'transparent', construct, '%s: the original receives other arguments' % what, p)
    if e['raised'] is not None:
        ctx.check(p.var('raised') == e['raised'], 'transparent', construct, '%s: the exception does not propagate' % what, p)
        if 'BaseException' in e['raised'].tags:
            return
    else:
        ctx.check(p.var('raised') == NONE and p.var('r') == e['result'], 'transparent', construct, '%s: the caller gets another result' % what, p)
    rs = records(p)
    if want is None:
        ctx.check(not rs, rule, construct, '%s: %d records are written, expected none' % (what, len(rs)), p)
        return
    if not ctx.check(len(rs) == 1, rule, construct, '%s: %d records are written, expected one' % (what, len(rs)), p):
        return
    for q, v in field(p, rs[0], 'message'):
        if want != NONE:
            ctx.check(v == want, 'priority', construct, '%s: the record is written by the decorator with the message %r, expected %r' % (what, v, want), q)


def c22(ctx):
    w = world(ctx, UserPolicy(raises=('Exception',)), levels=False, fixed={'level': Const(0), 'deduplicate_errors': FALSE, 'traceback_cutting': FALSE, 'suppress_by_default': FALSE, 'full_unlog': FALSE, 'service_name': NONE})
    bs = {'M%d' % (i + 1): m for i, m in enumerate(M)}

    def stack(job):
        name, (deco, last), kind = job
        fn, call, user = KINDS[kind]
        for p in run(w, (deco % fn) + CALL % call, **bs):
            if name == 'two independent decorations' and kind == 'async':
                continue
            outcome(ctx, 'one-record', RF, 'stack of decorators (%s, %s)' % (name, kind), p, user, NONE if last is None else M[last])

    def cls(job):
        name, (src, want) = job
        for p0 in run(w, src + 'o = T()\n', ATTR=ATTR, **bs):
            if not ctx.check(p0.exc is None, 'decorated', CL, '%s: decorating or making an instance raises %s' % (name, p0.show_exc()), p0):
                continue
            for call, m in want.items():
                for p in p0.run(CALL % ('r = ' + CALLS[call])):
                    outcome(ctx, 'one-record', CL, '%s: %s' % (name, CALLS[call]), p, None, m, args=call != 'deep')
            for q in p0.run('import inspect\nx = (isinstance(inspect.getattr_static(T, "s"), staticmethod), isinstance(inspect.getattr_static(T, "c"), classmethod), inspect.iscoroutinefunction(T.am), T.attr, T.__name__, T.m.__name__, inspect.isclass(T))\n'):
                ctx.check(q.exc is None and q.var('x') == TupleV([TRUE, TRUE, TRUE, ATTR, q.eval('T.__name__')[0][1], Const('m'), TRUE]), 'same-kind', UNPACK, '%s: the kind of a method or an attribute changes: %s' % (name, q.show_exc() or q.var('x')), q)
            for q in p0.run('same = T is log(T)\nsame2 = T is unlog(T)\n'):
                ctx.check(q.exc is None and q.var('same') == TRUE and q.var('same2') == TRUE, 'same-kind', CL, '%s: a decorated class is replaced by another object' % name, q)

    jobs = [(stack, (n, d, k)) for n, d in STACKS.items() for k in KINDS] + [(cls, x) for x in cases().items()]
    ctx.spread(jobs, lambda j: j[0](j[1]))
    for bad in ('log(1)', 'log(None)', 'log(f, f)', 'log(M1, M2)', 'log(M1)(5)', 'log(M1)("text")', 'log(message=5)(f)', 'log(message=0)(f)', 'log(message=[])(f)', 'log(message=False)(f)', 'log(errors_level=[])(f)', 'log(level=[])(f)', 'log(errors_level=1.5)(f)', 'unlog(5)', 'unlog(f, f)', 'clog(False, [])(5)', 'clog(False, [], 5)', 'flog(False, [], 5)', 'log(M1, handlers=5)(f)', 'log(M1, handlers=[5])(f)', 'log(M1, extra_fields=5)(f)', 'log(M1, extra_fields={1: 2})(f)'):
        for p in run(w, 'ok = False\ntry:\n    %s\nexcept Exception:\n    ok = True\n' % bad, **bs):
            if bad.startswith('clog(False, [])(5)'):
                continue
            ctx.check(p.exc is None and p.var('ok') == TRUE and not p.calls(USER), 'refused', CL, '%s is not refused' % bad, p)
    for r, n in (('one-record', 300), ('priority', 150), ('transparent', 600), ('same-kind', 40), ('refused', 10)):
        ctx.floor(r, n)
