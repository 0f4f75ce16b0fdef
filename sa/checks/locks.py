"""Locks and shared registries: nothing stays locked, no deadlock, no live iteration over what others change."""
from .pool import *

LDEFS = HDEFS + '''
import logging
from polog import message, unlog
from polog.core.engine.engine import Engine
from polog.core.stores.handlers import global_handlers
from polog.core.stores.levels import Levels
from polog.core.stores.settings.settings_store import SettingsStore
from polog.core.stores.registering_functions import RegisteringFunctions
from polog.core.utils.name_manager import NameManager
store = SettingsStore()
'''
SETUP = '''
config.add_handlers(h1, named=h2)
config.add_handlers({"branch.one": h3, "branch.two": h4})
config.add_fields(one=field(x1), two=field(x2))
config.add_engine_fields(three=field(x3))
config.levels(lvl_a=5, lvl_b=7)
g0 = log(MSG)(f)
class K0:
    def meth(self, *a, **k):
        return USER(*a, **k)
K0 = log(K0)
u0 = unlog(f)
'''
OPS = {
    'manual record': 'handle_log(MSG)',
    'manual record through a level name': 'handle_log.lvl_a(MSG)',
    'refused manual record': 'handle_log(MSG, level=None, function=5)',
    'decorated call': 'g0(*A, **K)',
    'decorated method': 'K0().meth()',
    'decorating': 'log(MSG, level="lvl_a", handlers=["named"], extra_fields={"one": field(x1)})(f)',
    'decorating with a branch': 'log(MSG, handlers=["branch"])(f)()',
    'decorating twice': 'log(MSG)(log(f))',
    'decorating a class': 'log(K0)',
    'context manager': 'with log(MSG):\n    USER()',
    'message': '@log\ndef q():\n    message(MSG, level="lvl_a")\n    return USER()\nq()',
    'message outside': 'message(MSG)',
    'excluded function': 'u0()',
    'excluding a class': 'unlog(K0)',
    'excluding': 'unlog(g0)()',
    'setting pool_size': 'config.set(pool_size=2)',
    'setting max_queue_size': 'config.set(max_queue_size=V)',
    'setting level': 'config.set(level=V, default_level=V2)',
    'setting levels by names': 'config.set(default_level="lvl_a", default_error_level="lvl_b")',
    'setting the integration': 'config.set(logging_off=V, integration_with_logging=V2)',
    'setting flags': 'config.set(fields_intersection=V, log_is_built_in=V2)',
    'reading settings': 'store["pool_size"]\nstore["max_queue_size"]\nstr(store)',
    'adding a handler': 'config.add_handlers(h5)',
    'adding a named handler': 'config.add_handlers(third=h5)',
    'adding a used name': 'config.add_handlers(named=h5)',
    'adding a handler in a branch': 'config.add_handlers({"branch.three.four": h5})',
    'deleting by name': 'config.delete_handlers("named")',
    'deleting in a branch': 'config.delete_handlers("branch.one")',
    'deleting an object': 'config.delete_handlers(h1)',
    'deleting an unknown name': 'config.delete_handlers("nobody")',
    'getting handlers': 'config.get_handlers()\nconfig.get_handlers("named", "branch", "nobody")',
    'handlers as a mapping': 'len(global_handlers)\nlist(global_handlers)\n"named" in global_handlers\nglobal_handlers["named"]\nstr(global_handlers)',
    'getting unknown branches': 'config.get_handlers("branch.five", "new.six")',
    'a missing handler': 'global_handlers["nobody"]',
    'adding fields': 'config.add_fields(four=field(x1))\nconfig.add_engine_fields(five=field(x2))',
    'adding a refused field': 'config.add_fields(four=V)',
    'deleting fields': 'config.delete_fields("one")\nconfig.delete_engine_fields("three")',
    'deleting an unknown field': 'config.delete_fields("nobody")',
    'getting fields': 'config.get_in_place_fields()\nconfig.get_in_place_fields("one", "six")\nconfig.get_engine_fields()\nconfig.get_engine_fields("three")\nconfig.get_all_fields()',
    'registering levels': 'config.levels(lvl_c=V)',
    'standard levels': 'config.standard_levels()',
    'names of levels': 'Levels.get_all_names()\nLevels.get_level_name(5)\nLevels.get("lvl_a")',
    'the registry of functions': 'reg = RegisteringFunctions()\nreg.is_decorator(f)\nreg.get_function_or_wrapper(f)',
    'reloading': 'Engine().reload()',
}
EXITS = {'exit': 'checker'}
OTHER = ('pool_size', 'max_queue_size', 'started', 'engine', 'fields_intersection', 'integration_with_logging', 'logging_off', 'log_is_built_in', 'level', 'default_level', 'default_error_level')


class LockPolicy(PoolPolicy):
    loop_bound = 4


def started_at(events, point, value):
    """value of the mark of the first record at every event"""
    out = []
    for e in events:
        out.append(value)
        if e.kind == 'store' and e.data['obj'] == point and e.data['attr'] == 'value' and isinstance(e.data['value'], Const):
            value = e.data['value'].v
    return out


def cycle(edges):
    """a cycle of the graph, as a list of nodes, or None"""
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
    state = {}

    def go(v, path):
        state[v] = 1
        for x in sorted(g.get(v, ()), key=lambda r: r.id):
            if state.get(x) == 1:
                return path[path.index(x):] + [x]
            if x not in state:
                c = go(x, path + [x])
                if c:
                    return c
        state[v] = 2
        return None
    for v in sorted(g, key=lambda r: r.id):
        if v not in state:
            c = go(v, [v])
            if c:
                return c
    return None


def c14(ctx):
    H5 = Sym('handler_5', {'user', 'callable', 'function'})
    pol = LockPolicy(raises=('Exception',), extra={**{h: ('Exception',) for h in H + [H5]}, **{x: ('Exception',) for x in X}, FACTORY: ('Exception',)})
    fixed = {k: None for k in OTHER}
    fixed.update({'traceback_cutting': FALSE, 'deduplicate_errors': FALSE, 'suppress_by_default': FALSE, 'full_unlog': TRUE, 'service_name': NONE, 'suppress_exception_subclasses': TRUE})
    w = world(ctx, pol, levels=False, record=False, fixed=fixed)
    b = hbinds(H5=H5, V=Sym('value', {'maynone'}), V2=Sym('value_2', {'maynone'}))
    src = LDEFS + 'def h5(record):\n    return H5(record)\n'
    point = w.base.obj(w.get('polog.core.stores.settings.settings_store:SettingsStore.points')).items[Const('started')]
    phases = []
    for p in w.client(src + SETUP, **b):
        ctx.need(p.exc is None, 'the set-up raises %s' % p.show_exc())
        phases.append((p, False, 'before the first record'))
        for pool, label in ((0, 'synchronous'), (2, 'asynchronous')):
            done = [q for q in p.run('config.set(pool_size=%d)\nhandle_log(MSG)\n' % pool) if q.exc is None]
            ctx.need(done, 'no record can be written')
            phases.append((done[0], True, label))
    ctx.need(len(phases) == 3, 'the set-up of the analysis forks')
    edges = {False: {}, True: {}}
    walks, mutations, stores = [], [], []
    names = {}
    for p, started, phase in phases:
        bound = w.it.nextid if hasattr(w.it, 'nextid') else None
        k0 = len(p.events())
        shared = lambda r: r.id in p.st.base or r.id in p.st.delta
        ops_ = dict(OPS)
        if started:
            at = [e.data['pack'].pos[0] for e in p.events('call') if e.data['name'] == 'atexit.register']
            for i, fn in enumerate(at):
                ops_['exit %d' % i] = fn
            for i, t in enumerate(threads(p)):
                ops_['worker %d' % i] = thread_target(p, t)[0]
        for what, op in ops_.items():
            kw = {}
            if not isinstance(op, str):
                if what.startswith('worker'):
                    pol.items = tuple(e.data['pack'].pos[0] for e in p.events('call') if e.data['name'].endswith('.put') and e.data['pack'].pos)[:1]
                kw, op = {'FN': op}, 'FN()'
            qs = p.run('raised = None\ntry:\n' + ''.join('    %s\n' % x for x in op.split('\n')) + 'except Exception as e:\n    raised = e\n', **kw)
            pol.items = ()
            dead = [d for d in w.it.dead_states if d.dead == 'deadlock']
            ctx.check(not dead, 'self-deadlock', 'polog', '%s (%s): a thread waits for a lock it holds itself%s' % (what, phase, ', in ' + where([e for e in dead[0].events() if e.kind == 'deadlock'][-1]) if dead else ''), Path_of(w, dead, p))
            for q in qs + [Path_of(w, [d], p) for d in w.it.dead_states]:
                ev = q.events()[k0:]
                if q.o is None or q.o[0] == 'exc':
                    if not q.st.dead:
                        ctx.check(not q.st.locks, 'released', 'polog', '%s (%s): a lock stays taken after the operation%s' % (what, phase, lock_text(ev, q.st.locks)), q)
                    ctx.check(not any(e.kind == 'badrelease' for e in ev), 'released', 'polog', '%s (%s): a lock is released that is not taken' % (what, phase), q)
                for e, s in zip(ev, started_at(ev, point, started)):
                    if e.kind == 'acquire':
                        for h in e.locks:
                            if h != e.data['lock'] and shared(h) and shared(e.data['lock']):
                                edges[s].setdefault((h, e.data['lock']), (what, phase, e, q))
                        names.setdefault(e.data['lock'], where(e))
                        ctx.ok('acquired', where(e))
                    elif e.kind == 'walk' and isinstance(e.data['obj'], Ref) and shared(e.data['obj']):
                        walks.append((e, what, phase, q))
                    elif e.kind == 'mutate' and isinstance(e.data['obj'], Ref) and shared(e.data['obj']) and not existing_key(p, e):
                        mutations.append((e, what, phase, q))
                    elif e.kind == 'store' and e.data['obj'] == point and e.data['attr'] == 'value':
                        stores.append(e)
    # lock order, separately before and after the first record
    for s in (False, True):
        c = cycle(edges[s])
        txt = ''
        if c:
            txt = '; '.join('%s -> %s in "%s"' % (names.get(a), names.get(x), edges[s][(a, x)][0]) for a, x in zip(c, c[1:]))
        ctx.check(c is None, 'lock-order', 'polog', 'locks are taken in opposite orders %s the first record: %s' % ('after' if s else 'before', txt), edges[s][(c[0], c[1])][3] if c else None)
        ctx.ok('edges', str(s))
    # a thread that waits in the phase before the first record holds the lock that the end of this phase needs
    both = {**edges[False], **edges[True]}
    for (a, x), (what, phase, e, q) in edges[False].items():
        if (a, x) in edges[True]:
            continue
        if cycle(set(edges[True]) | {(a, x)}):
            ctx.check(all(a in st_.locks for st_ in stores), 'lock-order', 'polog', 'locks are taken in opposite orders around the first record: "%s" takes %s while holding %s' % (what, names.get(x), names.get(a)), q)
    # live iteration
    mutated = {}
    for e, what, phase, q in mutations:
        mutated.setdefault(e.data['obj'], []).append((e, what))
    seen = set()
    for e, what, phase, q in walks:
        o = e.data['obj']
        for m, by in mutated.get(o, ()):
            k = (where(e), where(m), bool(set(e.locks) & set(m.locks)))
            if k in seen:
                continue
            seen.add(k)
            ctx.check(set(e.locks) & set(m.locks), 'live-iteration', where(e), '"%s" iterates over a shared collection in place while "%s" may change its size in another thread (%s)' % (what, by, where(m)), q)
    ctx.need(mutations, 'no operation changes a registry')
    for r, n in (('released', 100), ('self-deadlock', 80), ('acquired', 100)):
        ctx.floor(r, n)
    ctx.need(mutated and len(mutated) >= 5, 'the registries are not found')


def existing_key(p, e):
    """a store under a key that is there already does not change the size"""
    if e.data.get('op') != 'setitem':
        return False
    o = p.st.obj(e.data['obj'])
    return o.kind == 'dict' and e.data.get('key') in o.items


def lock_text(ev, locks):
    for e in reversed(ev):
        if e.kind == 'acquire' and e.data['lock'] in locks:
            return ', taken in ' + where(e)
    return ''


def Path_of(w, sts, p):
    from ..lib import Path
    return Path(w, sts[0], None, p.m, p.fr) if sts else None
