"""Settings: domains, atomicity, conflicts, reading."""
from .pool import *

STORE = 'polog/core/stores/settings/settings_store.py:SettingsStore'
POINT = 'polog/core/stores/settings/setting_point.py:SettingPoint'
NUM0 = 'isinstance(V, (int, float)) and V >= 0'
NUM1 = 'isinstance(V, (int, float)) and V > 0'
BOOL = 'isinstance(V, bool)'
LEVEL = '(V in REG) if isinstance(V, str) else (type(V) is int and V >= 0)'
DOMAIN = {
    'pool_size': ('isinstance(V, int) and V >= 0', 'not (V == 0 and OLD["max_queue_size"] != 0)'),
    'max_queue_size': ('isinstance(V, int) and V >= 0', 'not (V != 0 and OLD["pool_size"] == 0)'),
    'level': (LEVEL, 'True'),
    'default_level': (LEVEL, 'True'),
    'default_error_level': (LEVEL, 'True'),
    'service_name': ('V is None or (isinstance(V, str) and V.isidentifier())', 'True'),
    'silent_internal_exceptions': (BOOL, 'True'),
    'max_delay_before_exit': (NUM0, 'True'),
    'delay_on_exit_loop_iteration_in_quants': ('isinstance(V, int) and V > 0', 'True'),
    'time_quant': (NUM1, 'True'),
    'engine': ('callable(V)', 'True'),
    'json_module': ('inspect.ismodule(V) and hasattr(V, "loads") and hasattr(V, "dumps") and callable(V.loads) and callable(V.dumps)', 'True'),
    'smart_assert_politic': ('isinstance(V, str) and V in ("all", "if_debug")', 'True'),
    'debug_mode': (BOOL, 'True'),
    'fields_intersection': (BOOL, 'True'),
    'unknown_fields_in_handle_logs': (BOOL, 'True'),
    'deduplicate_errors': (BOOL, 'True'),
    'log_is_built_in': (BOOL, 'True'),
    'full_unlog': (BOOL, 'True'),
    'suppress_by_default': (BOOL, 'True'),
    'suppress_exception_subclasses': (BOOL, 'True'),
    'integration_with_logging': (BOOL, 'not (V == False and OLD["logging_off"] == True)'),
    'logging_off': (BOOL, 'not (V == True and OLD["integration_with_logging"] == False)'),
    'traceback_cutting': (BOOL, 'True'),
}
V = Sym('value', {'maynone'})
EDGE = ('float("nan")', 'float("inf")', '-float("inf")', '-0.0', '0.0', '1.0', 'True', 'False', '-1', '0', '1', '10 ** 30', '1j', '""', '"0"', 'b"1"', '()', '[1]', 'None', 'int', 'object()')
SDEFS = '''
import inspect
from polog import config
from polog.core.stores.settings.settings_store import SettingsStore
store = SettingsStore()
'''


def store_world(ctx, policy=None, skip=('started', 'engine')):
    """the real store, every setting holding an arbitrary earlier value"""
    w = ctx.world(policy or UserPolicy())
    havoc_levels(w)
    pts = w.get('polog.core.stores.settings.settings_store:SettingsStore.points')
    names = []
    for k, ref in w.base.obj(pts).items.items():
        names.append(k.v)
        if k.v not in skip:
            old = w.base.obj(ref).attrs.get('value')
            if old is None:
                raise Lost('the value of a setting is gone')
            w.base.mut(ref).attrs['value'] = Sym(('old', k.v), SETTING_TAGS.get(k.v, {'notnone'}) if k.v not in ('smart_assert_politic',) else {'callable', 'notnone'})
    w.base.freeze()
    return w, names


# the defaults the documentation gives
DEFAULT = {'pool_size': 0, 'max_queue_size': 0, 'default_level': 1, 'default_error_level': 2, 'service_name': None, 'unknown_fields_in_handle_logs': True, 'deduplicate_errors': True, 'log_is_built_in': False,
           'full_unlog': True, 'suppress_by_default': False, 'suppress_exception_subclasses': True, 'integration_with_logging': True, 'logging_off': True, 'traceback_cutting': True}


def c12(ctx):
    w, names = store_world(ctx)
    ctx.need(set(DOMAIN) <= set(names), 'settings are gone: %r' % sorted(set(DOMAIN) - set(names)))
    b = binds(V=V)
    snap = '{%s}' % ', '.join('%r: store.force_get(%r)' % (n, n) for n in names)
    for key, (dom, compat) in DOMAIN.items():
        ps = w.client(SDEFS + 'OLD = %s\n' % snap + CALL % ('config.set(%s=V)' % key) + 'NEW = %s\n' % snap, **b)
        ctx.need(ps, 'no path for %s' % key)
        acc = rej = 0
        for p in ps:
            if not ctx.check(p.exc is None, 'domain', POINT + ' ' + key, 'reading the settings raises %s' % p.show_exc(), p):
                continue
            got = p.var('raised')
            ctx.check(not p.st.locks, 'lock-released', POINT, 'a lock of the settings stays held after assigning %s' % key, p)
            for q, ok in p.decide('bool((%s) and (%s))' % (dom, compat)):
                if ok:
                    acc += 1
                    ctx.check(got == NONE, 'domain', POINT + ' ' + key, 'a valid value is refused: %s' % w.it.describe_exc(q.st, got), q)
                    if got != NONE:
                        continue
                    if dom == LEVEL:
                        want = 'NEW[%r] == (REG[V] if isinstance(V, str) else V)' % key
                    elif key == 'smart_assert_politic':
                        want = 'callable(NEW[%r])' % key
                    else:
                        want = 'NEW[%r] is V or NEW[%r] == V' % (key, key)
                    for r, same in q.decide(want):
                        ctx.check(same, 'stored', POINT + ' ' + key, 'after the assignment the setting does not read as the assigned value', r)
                else:
                    rej += 1
                    ctx.check(got != NONE, 'domain', POINT + ' ' + key, 'an invalid value is accepted', q)
                    if got != NONE:
                        for r, same in q.decide('OLD[%r] is NEW[%r] or OLD[%r] == NEW[%r]' % (key, key, key, key)):
                            ctx.check(same, 'unchanged', POINT + ' ' + key, 'a refused assignment changes the setting', r)
                        for r, ok2 in q.decide('isinstance(X, (ValueError, KeyError, TypeError))', X=got):
                            ctx.check(ok2, 'refusal', POINT + ' ' + key, 'an invalid value is refused with %s' % w.it.describe_exc(r.st, got), r)
                others = [n for n in names if n != key]
                for r, same in q.decide(' and '.join('(OLD[%r] is NEW[%r] or OLD[%r] == NEW[%r])' % (n, n, n, n) for n in others)):
                    ctx.check(same, 'others-unchanged', POINT + ' ' + key, 'assigning %s changes another setting' % key, r)
        ctx.need(acc and rej or key == 'engine' and acc, 'the domain of %s is trivial' % key)
    # values at the edge of the orders: numbers that compare with nothing, infinities, booleans as numbers
    for key, (dom, compat) in DOMAIN.items():
        if dom not in (NUM0, NUM1, BOOL) and 'int' not in dom:
            continue
        for e in EDGE:
            for p in w.client(SDEFS + 'V = %s\nOLD = %s\n' % (e, snap) + CALL % ('config.set(%s=V)' % key), **b):
                if ctx.check(p.exc is None, 'edge', POINT + ' ' + key, 'reading the settings raises %s' % p.show_exc(), p):
                    for q, ok in p.decide('bool((%s) and (%s))' % (dom, compat)):
                        ctx.check((p.var('raised') == NONE) == ok, 'edge', POINT + ' ' + key, '%s is %s' % (e, 'refused' if ok else 'accepted'), q)
    # unknown names
    name = Sym('setting_name', {'str', 'notnone'})
    for p in w.client(SDEFS + CALL % 'store[NAME] = V' + 'known = NAME in store\n' + '''
r2 = None
try:
    store[NAME]
except KeyError as e:
    r2 = e
''', **binds(V=V, NAME=Sym('unknown_setting_name', {'str', 'notnone'}))):
        ctx.check(p.exc is None, 'unknown', STORE, 'raises %s' % p.show_exc(), p)
        if p.exc is None and p.var('known') == FALSE:
            for q, k in p.decide('isinstance(raised, KeyError) and isinstance(r2, KeyError)'):
                ctx.check(k, 'unknown', STORE, 'an unknown setting name is not refused with KeyError', q)
    # started: once, only True
    w2, _ = store_world(ctx)
    for p in w2.client(SDEFS + CALL % 'store["started"] = V' + 'one = store["started"]\nr1 = raised\n' + CALL % 'store["started"] = True' + 'two = store["started"]\n', **b):
        if p.exc is None:
            for q, ok in p.decide('isinstance(V, bool) and V == True'):
                ctx.check((p.var('r1') == NONE) == ok, 'domain', POINT + ' started', 'the mark of the first record accepts or refuses a wrong value', q)
                if ok:
                    ctx.check(p.var('raised') != NONE, 'domain', POINT + ' started', 'the mark of the first record can be set twice', q)
                for r, v in q.eval('one'):
                    ctx.check(v == Const(ok) or v == V and ok, 'stored', POINT + ' started', 'started reads as %r' % (v,), r)
    # what holds before anything is assigned
    w3 = ctx.world(UserPolicy())
    w3.base.freeze()
    for key, want in DEFAULT.items():
        for p in w3.client(SDEFS + 'one = store[%r]\ntwo = store.force_get(%r)\n' % (key, key), **b):
            ctx.check(p.exc is None and p.var('one') == Const(want) and p.var('two') == Const(want), 'default', POINT + ' ' + key, 'out of the box it is %s, documented is %r' % (p.show_exc() or p.var('one'), want), p)
    # several settings in one call: one after the other, a refused one changes nothing
    for r, n in (('domain', 60), ('stored', 24), ('unchanged', 24), ('others-unchanged', 60), ('unknown', 1), ('lock-released', 40), ('edge', 300), ('default', len(DEFAULT))):
        ctx.floor(r, n)


# ---------------------------------------------------------------- C13
PAIRS = {('pool_size', 'max_queue_size'): 'S["pool_size"] == 0 and S["max_queue_size"] != 0', ('integration_with_logging', 'logging_off'): 'S["integration_with_logging"] == False and S["logging_off"] == True'}


class LoadPolicy(EnginePolicy):
    watch = {}

    def load(self, it, st, ref, name, value):
        if (ref, name) in self.watch:
            st.trace = (st.trace, Event('load', {'obj': ref, 'attr': name, 'value': value}, ('', 0), (), st.locks))
        return value


def critical_section(ctx, w, pol, key, other, points):
    """paths of an accepted assignment of `key`: locks held from the last look at `other` to the store"""
    out = []
    pol.watch = {(points[other], 'value'): 1}
    ps = w.client(SDEFS + CALL % ('config.set(%s=V)' % key), **binds(V=V))
    pol.watch = {}
    for p in ps:
        if p.exc is not None or p.var('raised') != NONE:
            continue
        ev = p.events()
        st = [i for i, e in enumerate(ev) if e.kind == 'store' and e.data['obj'] == points[key] and e.data['value'] in (V,)]
        if not ctx.check(st, 'accepted', POINT, 'an accepted value of %s is not stored' % key, p):
            continue
        ld = [i for i, e in enumerate(ev) if e.kind == 'load' and e.data['obj'] == points[other] and i < st[0]]
        held = set(ev[st[0]].locks)
        if ld:
            held &= set(ev[ld[-1]].locks)
            held -= {e.data.get('lock') for e in ev[ld[-1]:st[0]] if e.kind == 'release'}
        out.append((p, bool(ld), held, set(ev[st[0]].locks)))
    return out


def c13(ctx):
    pol = LoadPolicy(raises=('Exception',))
    w, names = store_world(ctx, pol)
    o = w.base.obj(w.get('polog.core.stores.settings.settings_store:SettingsStore.points'))
    points = {k.v: v for k, v in o.items.items()}
    # 1. one assignment never leads from an allowed to a forbidden combination
    for (a, b_), bad in PAIRS.items():
        for key in (a, b_):
            for p in w.client(SDEFS + 'S = {%r: store.force_get(%r), %r: store.force_get(%r)}\n' % (a, a, b_, b_) + 'was = bool(%s)\n' % bad, **binds(V=V)):
                if p.var('was') != FALSE:
                    continue
                for q in p.run(CALL % ('config.set(%s=V)' % key) + 'S = {%r: store.force_get(%r), %r: store.force_get(%r)}\nnow = bool(%s)\n' % (a, a, b_, b_, bad)):
                    ctx.check(q.exc is None and q.var('now') == FALSE, 'combination', POINT, 'assigning %s makes a forbidden combination with %s' % (key, b_ if key == a else a), q)
    # 2. nor do two concurrent assignments: check and store are one critical section of a lock common to both
    for a, b_ in PAIRS:
        sections = {}
        for key, other in ((a, b_), (b_, a)):
            sections[key] = critical_section(ctx, w, pol, key, other, points)
            ctx.need(sections[key], '%s is never accepted' % key)
        for key, other in ((a, b_), (b_, a)):
            common = set.intersection(*[s[3] for s in sections[other]])
            for p, looked, held, _ in sections[key]:
                ctx.check(looked and held & common, 'critical-section', POINT, 'between the look at %s and the store of %s another thread can assign %s: together they make a forbidden combination' % (other, key, other), p)
    # 3. two concurrent assignments of one setting are serialised (value, action and mark belong together)
    for key in DOMAIN:
        for p in w.client(SDEFS + CALL % ('config.set(%s=V)' % key), **binds(V=V)):
            for e in p.events('store'):
                if e.data['obj'] == points[key]:
                    ctx.check(e.locks, 'serialised', POINT, 'the setting %s is changed (%s) without holding a lock' % (key, e.data['attr']), p)
    # 4. the engine is reloaded exactly when the value changes, under the lock, and readers wait for it
    from .common import world as _w
    w2, _ = store_world(ctx, pol, skip=('started', 'engine'))
    pts = {k.v: v for k, v in w2.base.obj(w2.get('polog.core.stores.settings.settings_store:SettingsStore.points')).items.items()}
    for key in ('pool_size', 'max_queue_size'):
        for p0 in w2.client(SDEFS + 'from polog.core.engine.engine import Engine\nfrom polog import handle_log\nconfig.set(engine=FACTORY)\nOLD = store.force_get(%r)\nEngine().write(RECORD)\n' % key, **binds(V=V, FACTORY=FACTORY, RECORD=RECORD)):
            if not ctx.check(p0.exc is None, 'reload', POINT, 'starting the engine raises %s' % p0.show_exc(), p0):
                continue
            k0 = len(p0.events())
            seen = []

            def probe(st, what, n, fr):
                s = other_context(st, w2.base)
                s.locks = st.locks
                for q in w2.client(SDEFS + 'got = store[%r]\n' % key, st=s, **binds()):
                    seen.append(q)
                for q in w2.client(SDEFS + 'got = store.force_get(%r)\n' % key, st=s, **binds()):
                    ctx.check(q.exc is None and q.var('got') == V, 'visible-to-engine', POINT, 'the new value of %s is not what the new engine is built from' % key, q)
            pol.probe = probe
            for p in p0.run(CALL % ('config.set(%s=V)' % key)):
                if not ctx.check(p.exc is None, 'reload', POINT, 'raises %s' % p.show_exc(), p):
                    continue
                o = [x[0] for x in ops(p, k0)]
                acc = p.var('raised') == NONE
                if acc:
                    for q, same in p.decide('OLD == V'):
                        ctx.check(o == ([] if same else ['stop', 'load']), 'reload', POINT, 'assigning %s: the engine sees %r although the value is %s' % (key, o, 'the same' if same else 'new'), q)
                else:
                    ctx.check(not o, 'reload', POINT, 'a refused %s reloads the engine' % key, p)
            pol.probe = None
            for q in seen:
                ctx.fail('readers-wait', POINT, 'the new value of %s can be read before the engine was reloaded' % key, q)
            ctx.ok('readers-wait', POINT)
    for r, n in (('combination', 12), ('critical-section', 4), ('serialised', 60), ('reload', 6), ('visible-to-engine', 4)):
        ctx.floor(r, n)
