"""Registries of names: levels and extra fields."""
from .decor import *
from .process import engine_world
from .namespace import canon, TRY

LV = 'polog/core/stores/levels.py:Levels'
CF = 'polog/config.py:config'
NM = 'polog/core/utils/name_manager.py:NameManager'
SETUP = '''
from polog import log, flog, handle_log, message, config, field
from polog.core.stores.levels import Levels
from polog.core.stores.fields import in_place_fields, engine_fields
box = []
def keep(record):
    box.append(record['level'])
config.add_handlers(keep)
def f():
    return None
def h(record):
    return None
def level_of(call):
    box.clear()
    try:
        call()
    except Exception:
        return 'raised'
    return tuple(box)
'''
LEVEL_NAMES = ('one', 'two', 'INFO')
OBSERVE = '''
names = tuple([Levels.get_level_name(n) for n in numbers])
known = tuple(sorted(Levels.get_all_names()))
manual_one, manual_two = level_of(lambda: handle_log.one('text')), level_of(lambda: handle_log.two('text'))
given_one, given_two = level_of(lambda: handle_log('text', level='one')), level_of(lambda: handle_log('text', level='two'))
called_one, called_two = level_of(log(f, level='one')), level_of(log(f, level='two'))
'''
STANDARD = {'NOTSET': 0, 'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}


def levels(ctx, w):
    numbers = (1, 2, 7, 20)
    ops = [('config.levels(%s=%d)' % (n, v), [(n, v)]) for n in ('one', 'two') for v in (1, 2)]
    ops += [('config.levels(one=2, two=1)', [('one', 2), ('two', 1)])]
    standard = [('config.levels(one=20)', [('one', 20)]), ('config.standard_levels()', [x for n, v in STANDARD.items() for x in ((n, v), (n.lower(), v))])]
    bad = ['config.levels(one="1")', 'config.levels(two=1.5)', 'config.levels(one=None)', 'config.levels(one=-1)', 'config.levels(_one=1)', 'config.levels(**{"one two": 2})', 'config.levels(**{"": 2})', 'config.levels(message=2)' if False else 'config.levels(__call__=2)']
    (p,) = w.client(SETUP, **binds())
    seen, queue = set(), [(p, {}, {}, '')]
    while queue and len(seen) < 400:
        p, model, last, hist = queue.pop(0)
        lev = p.var('Levels')
        key = (tuple(sorted(model.items())), tuple(sorted(last.items())), canon(p.st, [lev] + [p.st.obj(lev).attrs[k] for k in sorted(p.st.obj(lev).attrs)]))
        if key in seen:
            continue
        seen.add(key)
        what = 'after %s' % hist if hist else 'at first'
        good = True
        for q in p.run(OBSERVE, numbers=TupleV([Const(n) for n in numbers])):
            if not ctx.check(q.exc is None, 'total', LV, '%s: %s' % (what, q.show_exc()), q):
                good = False
                continue
            for n, v in zip(numbers, q.var('names').items):
                cur = [k for k, x in model.items() if x == n]
                ok = v in ([Const(last[n])] if last.get(n) in cur else [Const(k) for k in cur] or [Const(str(n))])
                good &= ctx.check(ok, 'number-to-name', LV, '%s: level %d is called %r, registered are %r' % (what, n, v, model), q)
            good &= ctx.check(q.var('known') == TupleV([Const(k) for k in sorted(model)]), 'known', LV, '%s: the known levels are %r, registered are %r' % (what, q.var('known'), sorted(model)), q)
            for n in ('one', 'two'):
                for how in ('manual', 'given', 'called'):
                    v = q.var('%s_%s' % (how, n))
                    if n in model:
                        good &= ctx.check(v == TupleV([Const(model[n])]), 'name-to-number', LV, '%s: the record of level %r (%s) has the level %r, registered are %r' % (what, n, how, v, model), q)
        if not good:
            continue
        for src, changes in ops + (standard if hist.count(';') < 1 else []) if 'standard' not in hist or ctx.tier == 'thorough' else []:
            for q in p.run(TRY % src):
                if ctx.check(q.exc is None and q.var('raised') == NONE, 'accepted', CF, '%s: %s is refused' % (what, src), q):
                    queue.append((q, {**model, **dict(changes)}, {**last, **{v: n for n, v in changes}}, (hist + '; ' if hist else '') + src))
        for src in bad:
            for q in p.run(TRY % src):
                if ctx.check(q.exc is None and q.var('raised') != NONE, 'refused', CF, '%s: %s is accepted' % (what, src), q):
                    queue.append((q, model, last, (hist + '; ' if hist else '') + src))



N = Sym('any_name', {'str', 'notnone'})
V = Sym('any_value', {'user'})


def opaque_level(ctx, w):
    """any name and any value"""
    for p in w.client(SETUP + 'before = dict(Levels.levels)\n' + TRY % 'config.levels(**{N: V})' + 'after = dict(Levels.levels)\n', N=N, V=V, **binds()):
        if not ctx.check(p.exc is None, 'total', CF, 'config.levels with any name and value: %s' % p.show_exc(), p):
            continue
        refused = p.var('raised') != NONE
        for q, possible in p.decide('isinstance(V, int) and V >= 0 and N.isidentifier() and not N.startswith("_")'):
            if refused and possible:
                for q2, taken in q.decide('N in dir(log) or N in dir(flog) or N in dir(handle_log) or N in dir(message)'):
                    ctx.check(taken, 'accepted', CF, 'a possible name and number of a level are refused', q2)
            elif not refused:
                ctx.check(possible, 'refused', CF, 'an impossible name or number of a level is accepted', q)
            for q2, same in q.decide('after == before' if refused else 'after == {**before, N: V}'):
                ctx.check(same, 'effect', CF, 'config.levels: %s' % ('a refused level changes the registry' if refused else 'an accepted level is not registered, or others change'), q2)


def own_names(ctx):
    """names the library itself looks up on objects that offer levels as attributes"""
    found = set()

    class Collect(UserPolicy):
        def fact(self, it, st, key):
            if key[0] == 'in' and key[2] == REG and isinstance(key[1], Const) and isinstance(key[1].v, str):
                if key[1].v != 'client_level':
                    found.add(key[1].v)
                return False
            return super().fact(it, st, key)
    w = world(ctx, Collect())
    for src in ('g = log(MSG)(f)\n' + CALL % 'g(*A, **K)', 'g = log(f)\n' + CALL % 'g(*A, **K)', 'g = log(af)\n' + CALL % 'await g(*A, **K)', 'g = log(suppress=E1)(f)\n' + CALL % 'g(*A, **K)',
                '@log(MSG)\nclass C:\n    def m(self, *a, **k):\n        return USER(*a, **k)\n' + CALL % 'C().m(*A, **K)', '@clog\nclass C:\n    def m(self, *a, **k):\n        return USER(*a, **k)\n' + CALL % 'C().m(*A, **K)',
                CALL % 'log(MSG)', CALL % 'handle_log(MSG, exception=V, level=LNAME)', CALL % 'handle_log(MSG, unknown=V)', 'from polog import simple_handle_log\n' + CALL % 'simple_handle_log(MSG)' if False else '',
                CALL % '\n    with log(MSG):\n        USER(*A, **K)', CALL % '\n    with log.suppress(E1):\n        USER(*A, **K)', '@log\ndef g(*a, **k):\n    message(MSG, exception=V)\n    return USER(*a, **k)\n' + CALL % 'g(*A, **K)',
                '@log\n@unlog\ndef g(*a, **k):\n    return USER(*a, **k)\n' + CALL % 'g(*A, **K)', 'from polog import ass\n' + CALL % 'ass(V, V)', 'from polog import ass\n' + CALL % 'ass(V)',
                'x = log.client_level\n', 'x = handle_log.client_level\n', 'x = message.client_level\n'):
        try:
            run(w, src, V=V)
        except AnalysisError:
            raise
    return found


def own(ctx):
    found = sorted(x for x in own_names(ctx) if not x.startswith('__'))
    w = engine_world(ctx, UserPolicy(raises=()), levels=False)
    for p in w.client(SETUP + 'public = tuple(sorted(set(dir(log)) | set(dir(flog)) | set(dir(handle_log)) | set(dir(message))))\n', **binds()):
        found += [x.v for x in p.var('public').items if isinstance(x, Const) and not x.v.startswith('_')]
    for x in sorted(set(found)):
        for p in w.client(SETUP + TRY % ('config.levels(**{%r: 5})' % x), **binds()):
            ctx.check(p.var('raised') != NONE, 'own-names', NM, '%r is an attribute of the loggers, and a level may be registered under that name' % x, p)
    ctx.check(len(found) > 0, 'own-names', NM, 'no name is looked up')


FSETUP = SETUP + '''
class Odd:
    def get_data(self, record):
        return 1
    def __bool__(self):
        return False
F1, F2 = field(h), Odd()
class NoData:
    pass
class WrongData:
    def get_data(self, one, two):
        return 1
'''
FOBS = '''
def show(d, names):
    return tuple([d[n] if n in d else None for n in names]), len(d)
place, engine, both = show(config.get_in_place_fields(), names), show(config.get_engine_fields(), names), show(config.get_all_fields(), names)
place_x, engine_x, both_x = show(config.get_in_place_fields('x', 'zz'), names), show(config.get_engine_fields('x', 'zz'), names), show(config.get_all_fields('x', 'zz'), names)
'''


def fields(ctx, w):
    names = ('x', 'y')
    ops = []
    for kind, add, rem in (('place', 'config.add_fields', 'config.delete_fields'), ('engine', 'config.add_engine_fields', 'config.delete_engine_fields')):
        for n in names:
            ops += [('%s(%s=F%d)' % (add, n, i), kind, {n: i}, None) for i in (1, 2)]
            ops.append(('%s("%s")' % (rem, n), kind, {}, n))
        ops.append(('%s(x=F2, y=F1)' % add, kind, {'x': 2, 'y': 1}, None))
        ops += [(x, None, None, None) for x in ('%s("zz")' % rem, '%s(5)' % rem, '%s(zz=5)' % add, '%s(zz=h)' % add, '%s(zz=None)' % add, '%s(zz=NoData())' % add, '%s(zz=WrongData())' % add, '%s(_x=F1)' % add, '%s(**{"x y": F1})' % add, '%s(**{"": F1})' % add)]
    (p,) = w.client(FSETUP, **binds())
    seen, queue = set(), [(p, {'place': {}, 'engine': {}}, '')]
    while queue and len(seen) < 300:
        p, model, hist = queue.pop(0)
        key = (repr(sorted((k, sorted(v.items())) for k, v in model.items())), canon(p.st, [p.var('in_place_fields'), p.var('engine_fields')]))
        if key in seen:
            continue
        seen.add(key)
        what = 'after %s' % hist if hist else 'at first'
        good = True
        for q in p.run(FOBS, names=TupleV([Const(n) for n in names])):
            if not ctx.check(q.exc is None, 'total', CF, '%s: %s' % (what, q.show_exc()), q):
                good = False
                continue
            fs = {1: q.var('F1'), 2: q.var('F2')}
            for nm, d in (('place', model['place']), ('engine', model['engine']), ('both', {**model['place'], **model['engine']})):
                for suffix, dd in (('', d), ('_x', {k: v for k, v in d.items() if k == 'x'})):
                    want = TupleV([TupleV([fs[dd[n]] if n in dd else NONE for n in names]), Const(len(dd))])
                    good &= ctx.check(q.var(nm + suffix) == want, 'registered-fields', CF, '%s: the fields of config (%s%s) are %r, expected %r' % (what, nm, suffix, q.var(nm + suffix), dd), q)
        if not good:
            continue
        for src, kind, new, gone in ops:
            refuse = kind is None or (gone is not None and gone not in model[kind])
            for q in p.run(TRY % src):
                if ctx.check(q.exc is None and (q.var('raised') != NONE) == refuse, 'refused' if refuse else 'accepted', CF, '%s: %s is %s' % (what, src, 'accepted' if refuse else 'refused'), q):
                    m = model if refuse else {**model, kind: {**{k: v for k, v in model[kind].items() if k != gone}, **new}}
                    queue.append((q, m, (hist + '; ' if hist else '') + src))


def built_in(ctx):
    """fields the library itself writes are not available as extra fields"""
    w = world(ctx, UserPolicy(raises=('Exception',)))
    found = set()
    for src in ('g = log(MSG, level=LVL)(f)\n' + CALL % 'g(*A, **K)', 'g = log(MSG)(af)\n' + CALL % 'await g(*A, **K)',
                'class C:\n    def m(self, *a, **k):\n        return USER(*a, **k)\nC = log(MSG)(C)\n' + CALL % 'C().m(*A, **K)',
                CALL % 'handle_log(MSG, level=LVL, exception=ValueError("text"), success=False, function=f, class_="name", module="name", vars="text")', CALL % '\n    with log(MSG):\n        USER(*A, **K)'):
        for p in run(w, src):
            for r in records(p):
                for q, v in p.eval('tuple(REC)', REC=r.data['log']):
                    if isinstance(v, TupleV):
                        found |= {x.v for x in v.items if isinstance(x, Const)}
    ctx.check(len(found) >= 10, 'built-in-fields', NM, 'the records have only the fields %r' % sorted(found))
    w = engine_world(ctx, UserPolicy(raises=()), levels=False)
    for x in sorted(found):
        for add, store in (('config.add_fields', 'in_place_fields'), ('config.add_engine_fields', 'engine_fields')):
            for p in w.client(FSETUP + 'n = len(%s)\n' % store + TRY % ('%s(**{%r: F1})' % (add, x)) + 'n2 = len(%s)\n' % store, **binds()):
                ctx.check(p.exc is None and p.var('raised') != NONE and p.var('n') == p.var('n2'), 'built-in-fields', NM, '%s accepts the name %r of a field of the library itself' % (add, x), p)


def c31(ctx):
    w = engine_world(ctx, UserPolicy(raises=()), levels=False, fixed={'full_unlog': FALSE, 'suppress_by_default': FALSE, 'deduplicate_errors': FALSE})
    w.base.freeze()
    parts = {'levels': lambda: levels(ctx, w), 'opaque': lambda: opaque_level(ctx, w), 'own': lambda: own(ctx), 'fields': lambda: fields(ctx, w), 'built-in': lambda: built_in(ctx)}
    ctx.spread(list(parts), lambda k: parts[k]())
    for r, n in (('number-to-name', 20), ('name-to-number', 20), ('known', 10), ('refused', 50), ('accepted', 20), ('effect', 2), ('own-names', 1), ('registered-fields', 20), ('built-in-fields', 10)):
        ctx.floor(r, n)
