"""Two threads at a time: every operation behaves as if it ran alone (one preemption at every shared access)."""
from .process import *

TDEFS = '''
from polog import message, unlog
from polog.core.stores.handlers import global_handlers
from polog.core.stores.levels import Levels
from polog.core.stores.settings.settings_store import SettingsStore
from polog.core.stores.registering_functions import RegisteringFunctions
from polog.core.engine.engine import Engine
from polog.handlers.memory.saver import memory_saver
box = []
made = []
seen = []
def keep(r):
    box.append(r)
def k1(r):
    seen.append(1)
def k2(r):
    seen.append(2)
def k3(r):
    seen.append(3)
'''
FIXED = {'deduplicate_errors': FALSE, 'suppress_by_default': FALSE, 'silent_internal_exceptions': FALSE, 'logging_off': FALSE,
         'integration_with_logging': FALSE, 'service_name': NONE, 'full_unlog': TRUE, 'level': Const(0), 'default_level': Const(1),
         'default_error_level': Const(2), 'debug_mode': FALSE, 'unknown_fields_in_handle_logs': TRUE, 'suppress_exception_subclasses': TRUE}
# (thread, number of its own): client text
EVENTS = {
    'decorated call': ('@log("deco§", level=3§)\ndef d§(a):\n    return [a]\n', 'ret = d§(§)'),
    'failing decorated call': ('@log("fail§", level=3§, errors_level=4§)\ndef e§(a):\n    raise ValueError("fault§")\n', 'ret = e§(§)'),
    'suppressed call': ('s§ = log("supp§").suppress(ValueError)\n@s§\ndef s§(a):\n    raise ValueError("fault§")\n', 'ret = s§(§)'),
    'message from a call': ('@log("base§")\ndef m§(a):\n    message("edited§", level=5§, own§=§)\n    return a\n', 'ret = m§(§)'),
    'nested calls': ('@log("inner§")\ndef n§(a):\n    message("inner edited§")\n    return a\n@log("outer§")\ndef o§(a):\n    message("outer edited§")\n    return n§(a)\n', 'ret = o§(§)'),
    'context manager': ('', 'with log("context§", level=6§):\n    ret = §'),
    'failing context manager': ('', 'with log("broken§", level=6§):\n    raise ValueError("fault§")'),
    'suppressing context manager': ('', 'with log("calm§", level=6§).suppress(ValueError):\n    raise ValueError("fault§")'),
    'excluded call': ('@log("quiet§")\ndef q§(a):\n    return a\n@unlog\ndef u§(a):\n    return q§(a)\n', 'ret = u§(§)\nret = q§(§)'),
    'manual record': ('', 'handle_log("manual§", level=7§, function="there§")'),
    'manual record by level name': ('config.levels(lvl_§=80§)\n', 'handle_log.lvl_§("named§")'),
    'decorating and calling': ('', '@log("late§", level=3§)\ndef l§(a):\n    return [a]\nret = l§(§)'),
    'coroutine': ('@log("co§", level=3§)\nasync def co§(a):\n    message("edited§", own§=§)\n    return [a]\n', 'ret = await co§(§)'),
    'failing coroutine': ('@log("co§", errors_level=4§)\nasync def ce§(a):\n    message("edited§")\n    raise ValueError("fault§")\n', 'ret = await ce§(§)'),
    'excluded coroutine': ('@log("quiet§")\nasync def cq§(a):\n    return a\n@unlog\nasync def cu§(a):\n    return await cq§(a)\n', 'ret = await cu§(§)\nret = await cq§(§)'),
    'context manager without arguments': ('', 'with log as c:\n    c("bare§", level=6§)\n    ret = §'),
    'nested context managers': ('', 'with log as c:\n    c("outer§")\n    with log as d:\n        d("inner§")\n    with log("third§") as e:\n        ret = §'),
    'decorated method': ('@log("class§")\nclass C§:\n    def meth(self, a):\n        return [a]\nc§ = C§()\n', 'ret = c§.meth(§)'),
}
# both threads use the same objects: (set-up, what the thread § does)
SAME = {
    'the same function': ('@log("deco", level=31)\ndef d(a):\n    message("edited" + str(a), own=a)\n    return [a]\n', 'ret = d(§)'),
    'the same failing function': ('@log("deco", level=31)\ndef d(a):\n    message("edited" + str(a))\n    raise ValueError("fault" + str(a))\n', 'ret = d(§)'),
    'the same suppressed function': ('@(log("deco").suppress(ValueError))\ndef d(a):\n    message("edited" + str(a))\n    raise ValueError("fault" + str(a))\n', 'ret = d(§)'),
    'the same method': ('@log("class")\nclass C:\n    def meth(self, a):\n        message("edited" + str(a))\n        return [a]\nc = C()\n', 'ret = c.meth(§)'),
    'the same recursive function': ('@log("deco")\ndef d(a, b):\n    message("edited" + str(b) + str(a))\n    return d(a, b - 1) if b else a\n', 'ret = d(§, 1)'),
    'the same excluded function': ('@log("quiet")\ndef q(a):\n    message("edited" + str(a))\n    return a\n@unlog\ndef u(a):\n    return q(a)\n', 'ret = u(§)\nret = q(§)'),
    'the same function with its own handlers and fields': ('def nm(r):\n    return r.function_input_data.args\n@log("deco", handlers=[keep], extra_fields={"x": field(nm)})\ndef d(a):\n    message("edited" + str(a))\n    return [a]\n', 'ret = d(§)'),
    'the same coroutine function': ('@log("deco", level=31)\nasync def d(a):\n    message("edited" + str(a), own=a)\n    return [a]\n', 'ret = await d(§)'),
    'the same excluded coroutine function': ('@log("quiet")\nasync def q(a):\n    message("edited" + str(a))\n    return a\n@unlog\nasync def u(a):\n    return await q(a)\n', 'ret = await u(§)\nret = await q(§)'),
    'a common exception': ('E = ValueError("common")\n@log("deco")\ndef d(a):\n    message("edited" + str(a))\n    raise E\n', 'ret = d(§)'),
}
# what both inherit from the code that started them
INHERITED = {
    'an open context': 'outer = log.__enter__()\n',
    'a pending message': 'message("pending", level=99)\n',
    'two open contexts': 'outer = log.__enter__()\ninner = log.__enter__()\n',
}
HEIRS = ('context manager without arguments', 'nested context managers', 'message from a call', 'nested calls', 'coroutine', 'excluded coroutine')
RICH = ('message from a call', 'failing context manager')
CONTENT_OF = 'obs = [[[(k, r[k]) for k in r if k not in ("time", "time_of_work", "traceback")] for r in box if str(r.get("message"))[-1:] == i] for i in ("1", "2")] + [len(box)]\n'
GUARD = '''
ret = None
out = None
try:
%s
except Exception as e:
    out = (type(e).__name__, str(e))
'''


def guard(src):
    return GUARD % ''.join('    %s\n' % l for l in src.strip('\n').split('\n'))


def thread_world(ctx, fixed=None):
    return engine_world(ctx, UserPolicy(raises=()), fixed={**FIXED, **(fixed or {})}, levels=False)


def snap(p, *vs):
    return tuple(repr(p.w.it.snap(p.st, v)) for v in vs)


def atomic(ctx, rule, construct, what, p0, a, b, obs, deep=True):
    """whatever the preemption, the result is that of one of the two sequential orders"""
    if rule in [k.split('|')[0] for k in ctx.fails]:
        return
    a, b = guard(a), guard(b)
    legal = set()
    for first, second, turn in ((a, b, 1), (b, a, -1)):
        for q in p0.run(first + 'first = (ret, out)\n' + second + 'second = (ret, out)\n' + obs):
            if not ctx.check(q.exc is None, 'sequential', construct, '%s, one after the other: %s' % (what, q.show_exc()), q):
                return
            legal.add(snap(q, *[q.var(x) for x in ('first', 'second')[::turn]]) + snap(q, q.var('obs')))
    p0.w.it.steps = 0
    race = Race(p0, a, b, full=ctx.tier != 'quick', deep=deep)
    ctx.check(not race.dead, rule, construct, '%s: the threads wait for each other' % what, race.alone[0] if race.alone else p0)
    for p in race.paths:
        if not ctx.check(p.exc is None and race.other(p, 'OUTCOME') == NONE, rule, construct, '%s: %s' % (what, p.show_exc() or 'the other thread fails'), p):
            continue
        ctx.check(race.other(p, 'LEFT') == Const(0) and not p.st.locks, rule, construct, '%s: a lock stays taken' % what, p)
        for q in p.run('mine = (ret, out)\n' + obs):
            if not ctx.check(q.exc is None, rule, construct, '%s: then %s' % (what, q.show_exc()), q):
                continue
            theirs = TupleV([race.other(q, 'ret'), race.other(q, 'out')])
            got = snap(q, q.var('mine'), theirs) + snap(q, q.var('obs'))
            ctx.check(got in legal, rule, construct, '%s: with the other thread running in between (%s) the result is %s, in no sequential order: %s' % (what, preempted_at(q), got, sorted(legal)), q)
    for _ in range(race.points):
        ctx.ok('preemption-points', what)
    for _ in range(race.thinned):
        ctx.ok('schedules-left-out', what)
    for _ in range(race.switches):
        ctx.ok('second-switches', what)
    ctx.ok('schedules', what)
    return race


def preempted_at(q):
    ev = q.events()
    for i, e in enumerate(ev):
        if e.stack and e.stack[0][0] == '<other thread>':
            return 'after %s in %s' % (ev[i - 1].kind, where(ev[i - 1])) if i else 'at the start'
    return 'at the start'


def c20(ctx):
    w = thread_world(ctx)
    names = list(EVENTS)
    pairs = [(x, x) for x in names]
    pairs += [z for i, x in enumerate(names) for r in RICH if r != x for z in ((x, r), (r, x))[i % 2 if ctx.tier == 'quick' else 0:][:1 if ctx.tier == 'quick' else 2]]

    def one(pair):
        x, y = pair
        src = ''.join(EVENTS[n][0].replace('§', str(i)) for n, i in ((x, 1), (y, 2)))
        ps = hrun(w, TDEFS + 'config.add_handlers(keep)\nhandle_log("warm-up")\nbox.clear()\n' + src)
        ctx.need(len(ps) == 1 and ps[0].exc is None, 'the set-up of %s forks or fails: %s' % (x, ps[0].show_exc() if ps else ''))
        atomic(ctx, 'undisturbed', 'polog/loggers', '"%s" against "%s"' % (x, y), ps[0], EVENTS[x][1].replace('§', '1'), EVENTS[y][1].replace('§', '2'), CONTENT_OF)

    def common(x):
        setup, text = SAME[x]
        ps = hrun(w, TDEFS + 'config.add_handlers(keep)\nhandle_log("warm-up")\nbox.clear()\n' + setup)
        ctx.need(len(ps) == 1 and ps[0].exc is None, 'the set-up of %s forks or fails: %s' % (x, ps[0].show_exc() if ps else ''))
        atomic(ctx, 'undisturbed', 'polog/loggers', x, ps[0], text.replace('§', '1'), text.replace('§', '2'), CONTENT_OF)


    def heirs(t):
        what, x, y = t
        src = ''.join(EVENTS[n][0].replace('§', str(i)) for n, i in ((x, 1), (y, 2)))
        ps = hrun(w, TDEFS + 'config.add_handlers(keep)\nhandle_log("warm-up")\nbox.clear()\n' + src + INHERITED[what])
        ctx.need(len(ps) == 1 and ps[0].exc is None, 'the set-up of %s in %s forks or fails: %s' % (x, what, ps[0].show_exc() if ps else ''))
        atomic(ctx, 'undisturbed', 'polog/loggers', '"%s" against "%s", both inside of %s' % (x, y, what), ps[0], EVENTS[x][1].replace('§', '1'), EVENTS[y][1].replace('§', '2'), CONTENT_OF)

    inherited = [(i, x, x) for i in INHERITED for x in HEIRS if ctx.tier != 'quick' or not i.startswith('two') or 'context' in x]
    inherited += [(i, x, HEIRS[0]) for i in INHERITED for x in HEIRS[1:] if ctx.tier != 'quick' or i == 'an open context']
    ctx.spread([(heirs, x) for x in inherited] + [(one, x) for x in pairs] + [(common, x) for x in SAME], lambda j: j[0](j[1]))
    # the first records of all
    for x in ('decorated call', 'manual record'):
        ps = hrun(w, TDEFS + 'config.add_handlers(keep)\n' + ''.join(EVENTS[n][0].replace('§', str(i)) for n, i in ((x, 1), ('manual record', 2))))
        atomic(ctx, 'first-records', 'polog/core/engine', 'first "%s"' % x, ps[0], EVENTS[x][1].replace('§', '1'), EVENTS['manual record'][1].replace('§', '2'), CONTENT_OF)
    for r, n in (('undisturbed', 100), ('schedules', 25), ('first-records', 4), ('preemption-points', 50)):
        ctx.floor(r, n)


WHO = 'seen.clear()\nhandle_log("probe")\nobs = sorted(seen)\n'
OWN = 'seen.clear()\nfor g in made:\n    g()\nobs = sorted(seen)\n'
FLD = 'obs = [(k, v is F1, v is F2) for k, v in config.get_all_fields().items()]\n'
LVLS = 'obs = [(n, Levels.get(n)) for n in sorted(Levels.get_all_names())] + [Levels.get_level_name(n) for n in (5, 6)]\n'
MEM = 'obs = [sorted(memory_saver().all), memory_saver().last is None or memory_saver().last == memory_saver().all[-1], memory_saver() is memory_saver()]\n'
AH = 'config.add_handlers(%s)\n'
REGISTRIES = {
    'polog/config.py:config.add_handlers': [
        ('two handlers', '', AH % 'k1', AH % 'k2', WHO),
        ('several handlers', '', AH % 'k1, k3', AH % 'k2', WHO),
        ('one object twice', '', AH % 'k1', AH % 'k1', WHO),
        ('one name twice', '', AH % 'one=k1', AH % 'one=k2', WHO),
        ('one path twice', '', AH % '{"one.two": k1}', AH % '{"one.two": k2}', WHO),
        ('two paths of a branch', '', AH % '{"one.two": k1}', AH % '{"one.three": k2}', WHO),
        ('a path and a longer one', '', AH % '{"one.two": k1}', AH % '{"one.two.three": k2}', WHO),
        ('a longer path and its beginning', '', AH % '{"one.two.three": k1}', AH % '{"one": k2}', WHO),
    ],
    'polog/config.py:config.delete_handlers': [
        ('adding and deleting', AH % 'one=k1', AH % 'two=k2', 'config.delete_handlers("one")\n', WHO),
        ('deleting and adding', AH % 'one=k1', 'config.delete_handlers("one")\n', AH % 'two=k2', WHO),
        ('deleting twice', AH % 'one=k1', 'config.delete_handlers("one")\n', 'config.delete_handlers("one")\n', WHO),
        ('adding and deleting in a branch', AH % '{"one.two": k1}', AH % '{"one.three": k2}', 'config.delete_handlers("one.two")\n', WHO),
        ('deleting and adding in a branch', AH % '{"one.two": k1}', 'config.delete_handlers("one.two")\n', AH % '{"one.three": k2}', WHO),
        ('deleting a node above', AH % '{"one": k1, "one.two": k2}', 'config.delete_handlers("one.two")\n', 'config.delete_handlers("one")\n', WHO),
        ('deleting by object and by name', AH % 'one=k1', 'config.delete_handlers(k1)\n', 'config.delete_handlers("one")\n', WHO),
        ('deleting by object and replacing', AH % 'one=k1', 'config.delete_handlers(k1)\n', 'config.delete_handlers("one")\nconfig.add_handlers(one=k2)\n', WHO),
        ('replacing and deleting by object', AH % 'one=k1', 'config.delete_handlers("one")\nconfig.add_handlers(one=k2)\n', 'config.delete_handlers(k1)\n', None),
    ],
    'polog/data_structures/trees/named_tree': [
        ('choosing a name and registering it', '', 'made.append(log(handlers=["one"])(f))\n', AH % 'one=k1', OWN),
        ('registering a name and choosing it', '', AH % 'one=k1', 'made.append(log(handlers=["one"])(f))\n', OWN),
        ('choosing a path and registering it', '', 'made.append(log(handlers=["one.two"])(f))\n', AH % '{"one.two": k1}', OWN),
        ('choosing a name twice', '', 'made.append(log(handlers=["one"])(f))\n', 'made.append(log(handlers=["one"])(f))\n', 'config.add_handlers(one=k1)\n' + OWN),
        ('choosing a branch and extending it', AH % '{"one.two": k1}', 'made.append(log(handlers=["one", k3])(f))\n', AH % '{"one.three": k2}', OWN),
        ('writing and adding', AH % 'one=k1', 'handle_log("x")\n', AH % 'two=k2', 'obs = sorted(seen)\n'),
        ('writing and deleting', AH % 'one=k1, two=k2', 'handle_log("x")\n', 'config.delete_handlers("two")\n', 'obs = sorted(seen)\n'),
        ('writing and adding in a branch', AH % '{"one.two": k1}', 'handle_log("x")\n', AH % '{"one.three": k2}', 'obs = sorted(seen)\n'),
        ('counting and adding', AH % 'one=k1', 'ret = [len(global_handlers), "one" in global_handlers]\n', AH % 'two=k2', WHO),
        ('looking and deleting', AH % 'one=k1', 'ret = global_handlers["one"] is k1\n', 'config.delete_handlers("one")\n', WHO),
        ('getting and deleting', AH % 'one=k1', 'ret = len(config.get_handlers("one"))\n', 'config.delete_handlers("one")\n', WHO),
    ],
    'polog/core/stores/fields.py': [
        ('two fields', '', 'config.add_fields(one=F1)\n', 'config.add_fields(two=F2)\n', 'obs = sorted(config.get_all_fields())\n'),
        ('one field twice', '', 'config.add_fields(one=F1)\n', 'config.add_fields(one=F2)\n', FLD),
        ('deleting a field twice', 'config.add_fields(one=F1)\n', 'config.delete_fields("one")\n', 'config.delete_fields("one")\n', FLD),
        ('replacing a field in the engine', 'config.add_engine_fields(one=F1)\n', 'config.add_engine_fields(one=F2)\n', 'config.delete_engine_fields("one")\n', FLD),
        ('getting and deleting a field', 'config.add_fields(one=F1)\n', 'ret = [(k, v is F1) for k, v in config.get_in_place_fields("one").items()]\n', 'config.delete_fields("one")\n', FLD),
        ('getting and deleting an engine field', 'config.add_engine_fields(one=F1)\n', 'ret = [(k, v is F1) for k, v in config.get_engine_fields("one").items()]\n', 'config.delete_engine_fields("one")\n', FLD),
        ('writing and deleting a field', AH % 'keep' + 'config.add_fields(one=F1)\n', 'handle_log("x")\n', 'config.delete_fields("one")\n', 'obs = [[(k, r[k]) for k in r if k != "time"] for r in box]\n'),
        ('writing and adding a field', AH % 'keep', 'handle_log("x")\n', 'config.add_fields(one=F1)\n', 'obs = [[(k, r[k]) for k in r if k != "time"] for r in box]\n'),
        ('calling and deleting a field', AH % 'keep' + 'config.add_fields(one=F1)\ng = log(f)\n', 'g()\n', 'config.delete_fields("one")\n', 'obs = [len(box)] + ["one" in r for r in box]\n'),
    ],
    'polog/core/stores/levels.py:Levels': [
        ('two names', '', 'config.levels(one=5)\n', 'config.levels(two=6)\n', LVLS),
        ('writing by name and renaming', AH % 'keep' + 'config.levels(one=5)\n', 'handle_log("x", level="one")\n', 'config.levels(one=6)\n', 'obs = [r["level"] for r in box]\n'),
        ('writing by attribute and renaming', AH % 'keep' + 'config.levels(one=5)\n', 'handle_log.one("x")\n', 'config.levels(one=6)\n', 'obs = [r["level"] for r in box]\n'),
        ('decorating by name and renaming', AH % 'keep' + 'config.levels(one=5)\n', 'made.append(log(level="one")(f))\n', 'config.levels(one=6)\n', 'for g in made:\n    g()\nobs = [r["level"] for r in box]\n'),
        ('listing and adding', 'config.levels(one=5)\n', 'ret = sorted(Levels.get_all_names())\n', 'config.levels(two=6)\n', LVLS),
    ],
    'polog/handlers/memory/saver.py:memory_saver': [
        ('first instances', '', 'memory_saver()(1)\n', 'memory_saver()(2)\n', MEM),
        ('records', 'memory_saver()\n', 'memory_saver()(1)\n', 'memory_saver()(2)\n', MEM),
        ('a record and cleaning', 'memory_saver()(1)\n', 'memory_saver()(2)\n', 'memory_saver().clean()\n', MEM),
        ('cleaning and a record', 'memory_saver()(1)\n', 'memory_saver().clean()\n', 'memory_saver()(2)\n', MEM),
        ('the first instance and a record', '', 'made.append(memory_saver())\n', 'made.append(memory_saver())\nmade[-1](2)\n', MEM + 'obs = obs + [made[0] is made[1]]\n'),
    ],
    'polog/core/stores/registering_functions.py:RegisteringFunctions': [
        ('decorating two functions', '', 'def one():\n    return 1\nmade.append(log(one, handlers=[k1]) if False else log(handlers=[k1])(one))\n', 'def two():\n    return 2\nmade.append(log(handlers=[k2])(two))\n', OWN),
        ('decorating and excluding', '', 'def one():\n    return 1\nmade.append(log(handlers=[k1])(one))\n', 'def two():\n    return 2\nmade.append(log(handlers=[k2])(unlog(two)))\n', OWN),
        ('decorating one function', '', 'made.append(log(handlers=[k1])(f))\n', 'made.append(log(handlers=[k2])(f))\n', OWN),
        ('decorating two classes', '', 'class One:\n    def m(self):\n        return 1\nmade.append(log(handlers=[k1])(One)().m)\n', 'class Two:\n    def m(self):\n        return 1\nmade.append(log(handlers=[k2])(Two)().m)\n', OWN),
    ],
    'polog/core/engine/engine.py:Engine': [
        ('a record and another number of threads', AH % 'keep', 'handle_log("x")\n', 'config.set(max_queue_size=7)\n', 'obs = [len(box)]\n'),
        ('a number of threads and a record', AH % 'keep', 'config.set(max_queue_size=7)\n', 'handle_log("x")\n', 'obs = [len(box)]\n'),
    ],
}


def c21(ctx):
    w = thread_world(ctx, fixed={'max_queue_size': None})

    def one(case):
            construct, (what, setup, a, b, obs) = case
            ps = hrun(w, TDEFS + 'F1 = field(lambda r: 1)\nF2 = field(lambda r: 2)\n' + setup)
            ctx.need(len(ps) == 1 and ps[0].exc is None, 'the set-up of "%s" forks or fails: %s' % (what, ps[0].show_exc() if ps else ''))
            for first, second in ((a, b), (b, a)):
                atomic(ctx, 'atomic', construct, '"%s"' % what, ps[0], first, second, obs or WHO)
    ctx.spread([(c, x) for c, cases in REGISTRIES.items() for x in cases], one)
    for r, n in (('atomic', 80), ('schedules', 80), ('preemption-points', 50)):
        ctx.floor(r, n)
