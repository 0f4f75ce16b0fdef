"""Processing of records: handlers, extra fields, the record object itself."""
from .decor import *

H = [Sym('handler_%d' % i, {'user', 'callable', 'function'}) for i in range(1, 5)]
X = [Sym('extractor_%d' % i, {'user', 'callable', 'function'}) for i in range(1, 4)]
BOTH = ('Exception', 'BaseException')
HDEFS = DEFS + '''
from polog import field
def make_handler(target):
    def handler(record):
        return target(record)
    return handler
h1 = make_handler(H1)
h2 = make_handler(H2)
def h3(record):
    return H3(record)
def h4(record):
    return H4(record)
class Alike:
    def __init__(self, target):
        self.target = target
    def __call__(self, record):
        return self.target(record)
    def __eq__(self, other):
        return isinstance(other, Alike)
class Same(Alike):
    def __hash__(self):
        return 7
def x1(record):
    return X1(record)
def x2(record):
    return X2(record)
def x3(record):
    return X3(record)
'''
LI = 'polog/core/log_item.py:LogItem'


def hbinds(**kw):
    d = binds(**kw)
    for i, h in enumerate(H):
        d['H%d' % (i + 1)] = h
    for i, x in enumerate(X):
        d['X%d' % (i + 1)] = x
    return d


def hrun(w, src, st=None, **kw):
    return w.client(HDEFS + src, st=st, **hbinds(**kw))


def engine_world(ctx, policy=None, fixed=None, **kw):
    """the synchronous engine, with everything between the logger and the handlers"""
    f = {'pool_size': Const(0), 'engine': None, 'started': None, 'level': Const(0), 'fields_intersection': None, 'traceback_cutting': FALSE}
    f.update(fixed or {})
    return world(ctx, policy, record=False, fixed=f, **kw)


def handler_calls(p, hs=None):
    hs = hs or H
    return [e for e in p.events('call') if e.data['callee'] in hs]


ATTACH = {
    'global handlers': ('config.add_handlers(h1, h2, h3)\n', 'log(MSG)(f)', H[:3]),
    'named global handlers': ('config.add_handlers(one=h1, two=h2)\nconfig.add_handlers({"one.three": h3, "four.five.six": h4})\n', 'log(MSG)(f)', H),
    'own handlers': ('config.add_handlers(h4)\n', 'log(MSG, handlers=[h1, h2, h3])(f)', H[:3]),
    'own and named handlers': ('config.add_handlers(one=h1, two=h2)\nconfig.add_handlers({"one.three": h3})\n', 'log(MSG, handlers=["one", h4])(f)', [H[0], H[2], H[3]]),
    'own and named handlers, with names like those made up for own ones': ('config.add_handlers(Twilight_Sparkle=h1, Twilightjack=h2, Twilight_Pie=h3)\n', 'log(MSG, handlers=["Twilight_Sparkle", "Twilightjack", h4])(f)', [H[0], H[1], H[3]]),
    'global handlers with names like those made up for others': ('config.add_handlers(Twilight_Sparkle=h1, Twilightjack=h2)\nconfig.add_handlers(h3, h4)\n', 'log(MSG)(f)', H),
    'global handlers that are equal': ('config.add_handlers(Same(H1), Same(H2), Alike(H3))\nconfig.add_handlers(equal=Alike(H4))\n', 'log(MSG)(f)', H),
    'own handlers that are equal': ('', 'log(MSG, handlers=[Same(H1), Same(H2), Alike(H3), Alike(H4)])(f)', H),
    'branch of handlers': ('config.add_handlers(one=h1, two=h2)\nconfig.add_handlers({"one.three": h3, "two.four": h4})\n', 'log(MSG, handlers=("two", "one.three"))(f)', [H[1], H[3], H[2]]),
}


def c08(ctx):
    pol = UserPolicy(raises=('Exception',), extra={**{h: BOTH for h in H}, **{x: BOTH for x in X}})
    w = engine_world(ctx, pol, fixed={'deduplicate_errors': FALSE, 'suppress_by_default': FALSE})
    for name, (reg, deco, want) in ATTACH.items():
        if 'own' not in name and 'branch' not in name:
            events = {'decorated call': 'g = %s\n' % deco + CALL % 'r = g()', 'manual record': CALL % 'r = handle_log(MSG)'}
        else:
            events = {'decorated call': 'g = %s\n' % deco + CALL % 'r = g()'}
        for ev, src in events.items():
            for p in hrun(w, reg + src):
                if not ctx.check(p.exc is None, 'accepted', LI, '%s: %s' % (name, p.show_exc()), p):
                    continue
                cs = handler_calls(p)
                us = p.calls(USER)
                outcome = us[0].data['raised'] if us else None
                ctx.check(sorted(map(repr, [c.data['callee'] for c in cs])) == sorted(map(repr, want)), 'each-handler-once', LI,
                          '%s: the handlers called are %r, expected %r' % (name, [c.data['callee'] for c in cs], want), p)
                ctx.check(len({c.data['pack'].pos[0] for c in cs if c.data['pack'].pos}) <= 1 and all(len(c.data['pack'].pos) == 1 for c in cs), 'same-record', LI, '%s: handlers receive different records' % name, p)
                got = p.var('raised')
                ctx.check(got == (outcome or NONE), 'contained', LI, '%s: an exception of a handler reaches the logged program: %r' % (name, got), p)
    # field extractors
    for where_, reg, deco in (('in place', 'config.add_fields(one=field(x1), two=field(x2))\nconfig.add_handlers(h1, h2)\n', 'log(MSG)(f)'),
                              ('in the engine', 'config.add_engine_fields(one=field(x1), two=field(x2))\nconfig.add_handlers(h1, h2)\n', 'log(MSG)(f)'),
                              ('of the decorator', 'config.add_handlers(h1, h2)\n', 'log(MSG, extra_fields={"one": field(x1)}, extra_engine_fields={"two": field(x2)})(f)')):
        for ev, src in (('decorated call', 'g = %s\n' % deco + CALL % 'r = g()'), ('manual record', CALL % 'r = handle_log(MSG)')):
            if ev == 'manual record' and where_ == 'of the decorator':
                continue
            for p in hrun(w, reg + src):
                if not ctx.check(p.exc is None, 'accepted', LI, 'fields %s: %s' % (where_, p.show_exc()), p):
                    continue
                us = p.calls(USER)
                outcome = us[0].data['raised'] if us else None
                cs = handler_calls(p)
                ctx.check([c.data['callee'] for c in cs] == H[:2], 'fields-contained', LI, 'fields %s: an exception of a field extractor keeps the record from its handlers' % where_, p)
                ctx.check(p.var('raised') == (outcome or NONE), 'fields-contained', LI, 'fields %s: an exception of a field extractor reaches the logged program' % where_, p)
                xs = [e.data['callee'] for e in p.events('call') if e.data['callee'] in X]
                ctx.check(sorted(map(repr, xs)) == sorted(map(repr, X[:2])), 'each-extractor-once', LI, 'fields %s: the extractors called are %r' % (where_, xs), p)
                for c in cs:
                    for x, key in zip(X, ('one', 'two')):
                        e = [e for e in p.events('call') if e.data['callee'] == x]
                        if len(e) == 1:
                            if e[0].data['raised'] is None:
                                for q, v in p.eval('REC.get(%r)' % key, REC=c.data['pack'].pos[0]):
                                    ctx.check(v == e[0].data['result'], 'field-value', LI, 'fields %s: the field is %r' % (where_, v), q)
                            else:
                                absent(ctx, p, c.data['pack'].pos[0], key, 'field-value', LI)
    for r, n in (('each-handler-once', 100), ('contained', 100), ('fields-contained', 40), ('field-value', 60)):
        ctx.floor(r, n)


from .records import absent


REC = HDEFS + '''
from polog.errors import RewritingLogError
box = []
def keep(record):
    box.append(record)
config.add_handlers(keep)
config.add_fields(field_none=field(lambda record: None), field_empty=field(lambda record: ''), field_zero=field(lambda record: 0))
config.add_engine_fields(field_false=field(lambda record: False))
'''
READ = {
    'index and get agree': 'all(rec[k] == rec.get(k) for k in rec)',
    'iteration and membership agree': 'all(k in rec for k in rec)',
    'keys and iteration agree': 'list(rec.keys()) == list(rec)',
    'values and index agree': 'list(rec.values()) == [rec[k] for k in rec]',
    'items and index agree': 'list(rec.items()) == [(k, rec[k]) for k in rec]',
    'length and iteration agree': 'len(rec) == len(list(rec))',
    'missing keys': 'ABSENT in rec or rec.get(ABSENT) is None',
    'missing keys with a default': 'ABSENT in rec or rec.get(ABSENT, DEF) == DEF',
    'present keys with a default': 'rec.get("level", DEF) == rec["level"]',
    'empty values': 'all(k in rec for k in ("field_none", "field_empty", "field_zero", "field_false")) and rec["field_none"] is None and rec.get("field_empty", DEF) == "" and rec.get("field_none", DEF) is None and rec["field_false"] is False',
    'content': 'rec["message"] == MSG and rec["level"] == LVL and rec["auto"] is False',
    'repr': 'isinstance(repr(rec), str) and isinstance(str(rec), str)',
    'equality with itself': 'rec == rec and not (rec != rec)',
    'comparison with other objects': '(rec != MSG) and not (rec == MSG)',
}
WRITE = {
    'assignment to a field': 'rec["message"] = DEF',
    'assignment to a new field': 'rec[NEW] = DEF',
    'deletion': 'del rec["message"]',
    'deletion of a missing field': 'del rec[NEW]',
}


def c09(ctx):
    w = engine_world(ctx, UserPolicy(raises=('Exception',)), fixed={'unknown_fields_in_handle_logs': TRUE})
    absent_, new, df = Sym('some_key', {'str', 'notnone'}), Sym('new_key', {'str', 'notnone'}), Sym('some_default', {'object', 'notnone'})
    b = hbinds(ABSENT=absent_, NEW=new, DEF=df)
    makers = {'manual': 'handle_log(MSG, level=LVL)\nrec = box[0]\n', 'automatic': 'log(MSG, level=LVL)(f)(*A, **K)\nrec = box[0]\n', 'context': 'with log(MSG, level=LVL):\n    pass\nrec = box[0]\n'}
    for kind, src in makers.items():
        for p in w.client(REC + src, **b):
            if p.exc is not None:
                if p.calls(USER) and p.calls(USER)[0].data['raised'] is not None:
                    continue
                ctx.fail('record', LI, '%s: %s' % (kind, p.show_exc()), p)
                continue
            for what, expr in READ.items():
                if what == 'content' and kind == 'automatic':
                    expr = expr.replace('False', 'True')
                for q in p.run('try:\n    ok = bool(%s)\nexcept Exception as e:\n    ok = e\n' % expr):
                    ctx.check(q.exc is None and q.var('ok') == TRUE, 'read', LI, '%s record: %s: %r' % (kind, what, q.show_exc() or q.var('ok')), q)
            for q in p.run('try:\n    rec[ABSENT]\n    ok = ABSENT in rec\nexcept KeyError:\n    ok = ABSENT not in rec\n'):
                ctx.check(q.exc is None and q.var('ok') == TRUE, 'read', LI, '%s record: indexing by a missing key does not raise KeyError (or by a present one does)' % kind, q)
            for what, stmt in WRITE.items():
                for q in p.run('before = list(rec.items())\nok = None\ntry:\n    %s\nexcept RewritingLogError:\n    ok = True\nsame = list(rec.items()) == before\n' % stmt):
                    ctx.check(q.exc is None and q.var('ok') == TRUE, 'write', LI, '%s record: %s is not refused' % (kind, what), q)
                    ctx.check(q.exc is None and q.var('same') == TRUE, 'write', LI, '%s record: %s changes the record' % (kind, what), q)
    # a handler that tries to change the record does not affect the next one
    for p in w.client(REC + '''
def spoil(record):
    record["message"] = DEF
def spoil2(record):
    record.update({"message": DEF})
seen = []
def late(record):
    seen.append(record["message"])
config.add_handlers(spoil, spoil2, late)
handle_log(MSG)
''', **b):
        ctx.check(p.exc is None and p.st.obj(p.var('seen')).items == [MSG], 'write', LI, 'a handler changes the record for the following handlers', p)
    # order: by time
    t1, t2 = Sym('time_1', {'rank', 'notnone', 'truthy'}), Sym('time_2', {'rank', 'notnone', 'truthy'})
    for p in w.client(REC + 'handle_log(MSG, time=T1)\nhandle_log(MSG, time=T2)\na = box[0]\nb = box[1]\n', **{**b, 'T1': t1, 'T2': t2}):
        if not ctx.check(p.exc is None, 'order', LI, 'raises %s' % p.show_exc(), p):
            continue
        for op in ('==', '!=', '<', '>', '<=', '>='):
            for q, want in p.decide('T1 %s T2' % op):
                for r in q.run('try:\n    got = bool(a %s b)\nexcept Exception as e:\n    got = e\n' % op):
                    ctx.check(r.exc is None and r.var('got') == Const(want), 'order', LI, 'the comparison "%s" of records is not that of their times' % op, r)
    for p in w.client(REC + 'handle_log(MSG, time=T1)\nhandle_log(DEF2, time=T1)\nh = hash(box[0]) == hash(box[1])\n', **{**b, 'T1': t1, 'DEF2': Sym('other_message', {'str', 'notnone'})}):
        ctx.check(p.exc is None and p.var('h') == TRUE, 'order', LI, 'equal records have different hashes', p)
    for p in w.client(REC + 'handle_log(MSG)\na = box[0]\n', **b):
        for op in ('<', '>', '<=', '>='):
            for r in p.run('got = None\ntry:\n    a %s MSG\nexcept TypeError:\n    got = True\n' % op):
                ctx.check(r.exc is None and r.var('got') == TRUE, 'order', LI, 'ordering a record relative to another object does not raise TypeError', r)
    for r, n in (('read', 60), ('write', 30), ('order', 15)):
        ctx.floor(r, n)
