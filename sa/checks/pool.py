"""The asynchronous engine: workers, queue, stopping, reloading."""
from .process import *

PW = 'polog/core/engine/real_engines/multithreaded/worker.py:Worker'
PP = 'polog/core/engine/real_engines/multithreaded/pool.py:ThreadPool'
EN = 'polog/core/engine/engine.py:Engine'


def ext_kind(st, v):
    """name of the library class an object is an instance of"""
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == 'ext' and isinstance(o.cls, ExtV):
            return o.cls.name
    return None


class PoolPolicy(UserPolicy):
    """queue, threads and events as the standard library documents them; `items` are what the queue delivers"""
    loop_bound = 6
    items = ()
    flag = None          # state -> None: what stopping the pool changes for the workers

    def fork_flag(self, it, st, fr, n):
        out = [st]
        if self.flag is not None and not any(e.kind == 'flag' for e in st.events()):
            s = st.fork()
            it.event(s, fr, n, 'flag')
            self.flag(s)
            out.append(s)
        return out

    def call(self, it, st, callee, name, pack, fr, n):
        if not isinstance(callee, MethV) or not isinstance(callee.base, Ref):
            return None
        kind = ext_kind(st, callee.base)
        m = callee.name

        def done(s, v, raised=None):
            it.event(s, fr, n, 'call', callee=callee, name=name, pack=pack, raised=raised, awaited=False, result=v)
            return (s, v) if raised is None else (s, Exc(raised, it.loc(fr, n)))
        if kind == 'threading.Event':
            o = st.obj(callee.base)
            if m in ('set', 'clear'):
                it.event(st, fr, n, 'store', obj=callee.base, attr='_set', value=Const(m == 'set'))
                st.mut(callee.base).attrs['_set'] = Const(m == 'set')
                return [done(st, NONE)]
            if m in ('is_set', 'wait', 'isSet'):
                return [done(s, s.obj(callee.base).attrs.get('_set', FALSE)) for s in self.fork_flag(it, st, fr, n)]
        if kind in ('queue.Queue', 'queue.SimpleQueue', 'queue.LifoQueue', 'queue.PriorityQueue'):
            if m in ('get', 'get_nowait'):
                block = pack.kw.get('block') or (pack.pos[0] if pack.pos else TRUE)
                timeout = pack.kw.get('timeout') or (pack.pos[1] if len(pack.pos) > 1 else NONE)
                may_empty = m == 'get_nowait' or timeout != NONE or block != TRUE
                out = []
                for s in self.fork_flag(it, st, fr, n):
                    got = sum(1 for e in s.events() if e.kind == 'call' and is_meth(e, callee.base, 'get', 'get_nowait') and e.data['raised'] is None)
                    if may_empty:
                        s2 = s.fork()
                        out.append(done(s2, None, it.make_exc(s2, 'queue.Empty')))
                    if got < len(self.items):
                        out.append(done(s.fork(), self.items[got]))
                return out
            if m == 'empty':
                s2 = st.fork()
                return [done(st, TRUE), done(s2, FALSE)]
            if m == 'qsize':
                s2 = st.fork()
                return [done(st, Const(0)), done(s2, Const(1))]
            if m in ('task_done', 'put', 'put_nowait', 'join'):
                if m.startswith('put') and (m == 'put_nowait' or len(pack.pos) > 1 or pack.kw.get('block', TRUE) != TRUE or pack.kw.get('timeout', NONE) != NONE):
                    s2 = st.fork()
                    return [done(st, NONE), done(s2, None, it.make_exc(s2, 'queue.Full'))]
                return [done(st, NONE)]
        if kind == 'threading.Thread' and m in ('start', 'join'):
            return [done(st, NONE)]
        return None


def is_meth(e, obj, *names):
    c = e.data['callee'] if e.kind == 'call' else None
    return isinstance(c, MethV) and c.base == obj and c.name in names


def threads(p):
    return [e.data['result'] for e in p.events('call') if e.data['name'] == 'threading.Thread']


def queues(p):
    return [e.data['result'] for e in p.events('call') if e.data['name'].startswith('queue.') and isinstance(e.data['callee'], ExtV) and isinstance(e.data['result'], Ref)]


def thread_target(p, t):
    pk = p.st.obj(t).meta['pack']
    return pk.kw.get('target') or (pk.pos[1] if len(pk.pos) > 1 else None), pk


def c10(ctx):
    pol = PoolPolicy(raises=('Exception',), extra={h: BOTH for h in H})
    sizes = (1, 2) if ctx.tier == 'quick' else (1, 2, 3, 4)
    for size in sizes:
        pol.flag = None
        pol.items = ()
        w = engine_world(ctx, pol, fixed={'pool_size': Const(size)})
        ps = hrun(w, 'config.add_handlers(h1)\nhandle_log(MSG)\nhandle_log(MSG2)\nhandle_log(MSG)\n', MSG2=Sym('message_2', {'str', 'notnone'}))
        ctx.need(ps, 'no path of the client')
        for p in ps:
            if not ctx.check(p.exc is None, 'accepted', EN, 'writing a record raises %s' % p.show_exc(), p):
                continue
            ts, qs = threads(p), queues(p)
            if not ctx.check(len(ts) == size, 'workers', PP, 'with pool_size=%d there are %d threads' % (size, len(ts)), p):
                continue
            if not ctx.check(len(qs) == 1, 'one-queue', PP, '%d queues are created' % len(qs), p):
                continue
            q = qs[0]
            pk = p.st.obj(q).meta['pack']
            ctx.check((pk.pos[0] if pk.pos else pk.kw.get('maxsize')) == setting('max_queue_size'), 'queue-bound', PP, 'the queue is not bounded by max_queue_size', p)
            starts = [e.data['callee'].base for e in p.events('call') if isinstance(e.data['callee'], MethV) and e.data['callee'].name == 'start' and e.data['callee'].base in ts]
            ctx.check(sorted(starts, key=repr) == sorted(ts, key=repr), 'workers', PW, 'a worker thread is not started exactly once', p)
            for t in ts:
                tg, tpk = thread_target(p, t)
                daemon = p.st.obj(t).attrs.get('daemon') or tpk.kw.get('daemon')
                ctx.check(daemon == TRUE, 'daemon', PW, 'a worker thread is not a daemon: the interpreter would wait for it before the exit handler runs', p)
            puts = [e for e in p.events('call') if is_meth(e, q, 'put', 'put_nowait')]
            ctx.check(len(puts) == 3 and all(e.data['raised'] is None for e in puts), 'handed-over-once', PP, '%d records are put into the queue for 3 events' % len(puts), p)
            ctx.check(not handler_calls(p), 'handed-over-once', PP, 'a handler runs in the thread of the logged program', p)
            items = [e.data['pack'].pos[0] for e in puts if e.data['pack'].pos]
            ms = []
            for x in items:
                for q_, v in p.eval('REC.get("message")', REC=x):
                    ms.append(v)
            ctx.check(len(items) == 3 and ms == [MSG, Sym('message_2', {'str', 'notnone'}), MSG], 'handed-over-once', PP, 'the records in the queue are %r' % (ms,), p)
            if len(items) != 3:
                continue
            # stopping
            stores = stop_rules(ctx, w, pol, p, q, ts)
            if size <= 2:
                run_rules(ctx, w, pol, p, q, ts, items[:2] if ctx.tier == 'quick' else items, stores)
    ctx.floor('processed-once', 100)
    ctx.floor('joined', 2)


def stop_rules(ctx, w, pol, p, q, ts):
    mark = w.it.next_id
    n0 = len(p.events())
    stores = None
    for r in p.run('from polog.core.engine.engine import Engine\nEngine().reload()\n'):
        if not ctx.check(r.exc is None, 'stop', PP, 'stopping raises %s' % r.show_exc(), r):
            continue
        ev = r.events()[n0:]
        joined = set()
        effects = []
        waited = False
        flagged_before_join = True
        for e in ev:
            if e.kind == 'call' and (is_meth(e, q, 'empty') and e.data['result'] == TRUE or is_meth(e, q, 'qsize') and e.data['result'] == Const(0)):
                waited = True
            if e.kind == 'call' and is_meth(e, q, 'join'):
                waited = 'join'
            if e.kind == 'call' and isinstance(e.data['callee'], MethV) and e.data['callee'].base in ts:
                if e.data['callee'].name == 'join':
                    ctx.check(not e.data['pack'].pos and e.data['pack'].kw.get('timeout', NONE) == NONE, 'joined', PW, 'a worker is joined with a time limit, so it may still be working when the engine is replaced', r)
                    joined.add(e.data['callee'].base)
                elif e.data['callee'].name == 'is_alive' and r.st.facts.get(('truth', e.data['result'])) is False:
                    joined.add(e.data['callee'].base)
            if e.kind == 'store' and isinstance(e.data['obj'], Ref) and e.data['obj'].id < mark and reach(r, e.data['obj'], ts, q):
                effects.append((e, waited, len(joined)))
        ctx.check(joined == set(ts), 'joined', PP, 'stopping the pool returns although %d of %d workers were not waited for' % (len(ts) - len(joined), len(ts)), r)
        ctx.check(all(j == 0 for _, _, j in effects) or len(ts) > 1, 'stop', PP, 'a worker is waited for before it is told to stop', r)
        ctx.check(all(wt for _, wt, _ in effects), 'drained', PP, 'workers are told to stop before the queue is empty', r)
        pool_waits = bool(effects) and all(wt for _, wt, _ in effects)
        s = [(e.data['obj'], e.data['attr'], e.data['value']) for e, _, _ in effects]
        if stores is None:
            stores = (s, pool_waits, waited == 'join')
        else:
            stores = (stores[0] if len(stores[0]) <= len(s) else s, stores[1] and pool_waits, stores[2] or waited == 'join')
    ctx.need(stores is not None, 'stopping the pool has no path')
    return stores


def reach(r, obj, ts, q):
    """objects a worker thread sees: reachable from the targets of the threads"""
    seen, todo = set(), []
    for t in ts:
        tg, pk = thread_target(r, t)
        todo += [tg] + list(pk.kw.values()) + list(pk.pos)
    while todo:
        v = todo.pop()
        if isinstance(v, BoundV):
            todo += [v.self_]
        elif isinstance(v, TupleV):
            todo += list(v.items)
        elif isinstance(v, MethV):
            todo.append(v.base)
        elif isinstance(v, Ref) and v not in seen:
            seen.add(v)
            o = r.st.obj(v)
            if o.kind in ('inst', 'list', 'ext', 'partial', 'set'):
                todo += list(o.attrs.values())
                todo += [x for x in (o.items or []) ] if o.kind in ('list', 'set') else []
            elif o.kind == 'dict':
                todo += list(o.items.values())
            if o.kind == 'func':
                todo += [c for c in (o.meta.get('closure') or {}).values()] if isinstance(o.meta.get('closure'), dict) else []
            # stores shared by the whole program (settings) are not the pool's
            if o.kind == 'inst' and isinstance(o.cls, Ref) and r.st.obj(o.cls).meta.get('name') in ('SettingsStore',):
                todo = [x for x in todo if x not in o.attrs.values()]
                seen.discard(v)
    return obj in seen


def run_rules(ctx, w, pol, p, q, ts, items, stop):
    stores, pool_waits, uses_join = stop
    tg, pk = thread_target(p, ts[0])
    if not ctx.check(tg is not None, 'workers', PW, 'a worker thread has nothing to run', p):
        return

    def flag(st):
        for obj, attr, v in stores:
            st.mut(obj).attrs[attr] = v
    n0 = len(p.events())
    pol.items, pol.flag = tuple(items), flag
    try:
        args = pk.kw.get('args', TupleV(()))
        ps = p.run('T(*TA)\n', T=tg, TA=args)
        dead = [Path(w, s, None, p.m, p.fr) for s in w.it.dead_states]
    finally:
        pol.items, pol.flag = (), None
    exits = 0
    for r, ended in [(r, True) for r in ps] + [(r, False) for r in dead]:
        ev = r.events()[n0:]
        got, cur, handled, empties_after, flagged, last_empty, done = [], None, {}, 0, False, False, 0
        for e in ev:
            if e.kind == 'flag':
                flagged = True
            if e.kind != 'call':
                continue
            if is_meth(e, q, 'get', 'get_nowait'):
                if e.data['raised'] is None:
                    got.append(e.data['result'])
                    last_empty = False
                else:
                    last_empty = True
                    empties_after += flagged
            elif is_meth(e, q, 'task_done'):
                done += 1
                ctx.check(done <= len(got), 'done-once', PW, 'a record is marked as done twice: the queue raises ValueError and the worker dies', r)
            elif e.data['callee'] in H:
                x = e.data['pack'].pos[0] if e.data['pack'].pos else None
                handled.setdefault(x, []).append(e.data['callee'])
        for i, x in enumerate(got):
            hs = handled.get(x, [])
            want = H[:1]
            if not ended and i == len(got) - 1:
                ctx.check(all(hs.count(h) <= 1 for h in want), 'processed-once', PW, 'a record taken from the queue is handled by %r' % (hs,), r)
            else:
                ctx.check(hs == want, 'processed-once', PW, 'a record taken from the queue is handled by %r instead of %r' % (hs, want), r)
        ctx.check(set(handled) <= set(got), 'processed-once', PW, 'a record is processed that was not taken from the queue', r)
        if uses_join and ended:
            ctx.check(done == len(got), 'done-once', PW, 'a record is not marked as done: waiting for the queue never ends', r)
        if ended:
            exits += 1
            ctx.check(r.exc is None, 'survives', PW, 'an exception ends the worker: %s' % r.show_exc(), r)
            ctx.check(flagged, 'survives', PW, 'the worker ends although nobody stopped the pool', r)
            ctx.check(last_empty, 'drained', PW, 'the worker ends while the queue may hold records', r)
        ctx.check(empties_after <= 2, 'ends', PW, 'the worker goes on waiting for records although it was told to stop and the queue is empty', r)
    ctx.check(exits, 'ends', PW, 'no path leads out of the worker: stopping the pool would wait forever', p)


# ---------------------------------------------------------------- C11
FACTORY = Sym('engine_factory', {'callable', 'user', 'notnone'})
RECORD = Sym('some_record', {'object', 'notnone'})
EDEFS = DEFS + 'from polog.core.engine.engine import Engine\n'


def engine_no(v):
    """number of the engine an opaque method belongs to"""
    if isinstance(v, (MethV,)):
        v = v.base
    elif isinstance(v, Sym) and v.name[0] == 'attr':
        v = v.name[1]
    if isinstance(v, Sym) and len(v.name) == 3 and v.name[0] == 'res' and v.name[1] == FACTORY:
        return v.name[2]
    return None


def engine_op(e):
    """('load', n) / ('write'|'stop', n) of an event"""
    if e.kind != 'call':
        return None
    c = e.data['callee']
    if c == FACTORY:
        return ('load', None, e.data['raised'] is not None)
    n = engine_no(c)
    if n is None:
        return None
    nm = c.name if isinstance(c, MethV) else c.name[2]
    nm = nm.v if isinstance(nm, Const) else nm
    return (nm, n, e.data['raised'] is not None)


def ops(p, start=0):
    return [o for o in map(engine_op, p.events()[start:]) if o]


class EnginePolicy(UserPolicy):
    probe = None
    faults = ()

    def fact(self, it, st, key):
        if key[0] == 'hasattr' and engine_no(key[1]) is not None:
            return str(key[2].v if isinstance(key[2], Const) else key[2]) in ('write', 'stop')
        return super().fact(it, st, key)

    def may_raise(self, it, st, callee, name, pack):
        if callee == FACTORY:
            return BOTH if 'load' in self.faults else ()
        if engine_no(callee) is not None:
            return BOTH if str(name).rsplit('.', 1)[-1].strip("'>") in self.faults else ()
        return super().may_raise(it, st, callee, name, pack)

    meanwhile = None

    def acquiring(self, it, st, lock, fr, n):
        """another thread does something before this one gets the lock"""
        if self.meanwhile is None:
            return None
        f, self.meanwhile = self.meanwhile, None
        return f(st)

    def call(self, it, st, callee, name, pack, fr, n):
        if self.probe is not None and (callee == FACTORY or engine_no(callee) is not None):
            f, self.probe = self.probe, None
            saved = it.dead_states
            try:
                f(st, 'load' if callee == FACTORY else str(callee.name if isinstance(callee, MethV) else callee.name[2]), engine_no(callee), fr)
            finally:
                self.probe = f
                it.dead_states = saved
        return None


def c11(ctx):
    pol = EnginePolicy(raises=('Exception',))
    w = engine_world(ctx, pol, fixed={'engine': FACTORY, 'pool_size': None, 'max_queue_size': None, 'fields_intersection': FALSE, 'deduplicate_errors': FALSE})
    # loggers keep the engine they got when they were created
    p = run(w, 'from polog.core.engine.engine import Engine\nENG = Engine()\n')[0]
    eng = [p.var('ENG')]
    ctx.need(isinstance(eng[0], Ref) and (eng[0].id in w.base.base or eng[0].id in w.base.delta), 'the engine is not a singleton made on import')
    # nothing is loaded before the first record; it is loaded once
    for p in run(w, 'config.set(pool_size=2)\ng = log(f)\n'):
        ctx.check(p.exc is None and not ops(p), 'lazy', EN, 'an engine is loaded before the first record (%r)' % (p.show_exc() or ops(p),), p)
    for first, label in (('handle_log(MSG)\n', 'manual record'), (CALL % 'log(f)()', 'decorated call'), ('config.set(pool_size=2)\nhandle_log(MSG)\n', 'asynchronous')):
        for p in run(w, first + 'handle_log(MSG)\nhandle_log(MSG)\n'):
            if not ctx.check(p.exc is None, 'one-load', EN, 'writing raises %s' % p.show_exc(), p):
                continue
            o = ops(p)
            ctx.check([x[0] for x in o] == ['load', 'write', 'write', 'write'] and len({x[1] for x in o[1:]}) == 1, 'one-load', EN, 'three records with one engine: the engine sees %r' % (o,), p)
            at = [e for e in p.events('call') if e.data['name'] == 'atexit.register']
            ctx.check(len(at) == 1, 'exit-handler', EN, 'the exit handler is registered %d times' % len(at), p)
            ctx.check(not p.st.locks, 'lock-released', EN, 'a lock stays held after writing', p)
            if len(at) == 1 and at[0].data['pack'].pos:
                exit_handler(ctx, w, pol, p, at[0].data['pack'].pos[0], eng)
    # racing first records
    for p in run(w, 'from polog.core.engine.engine import Engine\nstale = Engine().write\nhandle_log(MSG)\nstale(RECORD)\n', RECORD=RECORD):
        o = ops(p)
        ctx.check(p.exc is None and [x[0] for x in o] == ['load', 'write', 'write'], 'one-load', EN, 'a second thread that was about to write the first record: the engine sees %r (%s)' % (o, p.show_exc()), p)

    def blocked(st, what, n, fr, rule, text):
        s = other_context(st, w.base)
        s.locks = st.locks
        k = len(st.events())
        for q in w.client(EDEFS + 'ENG.write(RECORD)\n', st=s, **binds(RECORD=RECORD, ENG=eng[0])):
            ctx.fail(rule, EN, text, q)
        ctx.check(any(d.dead == 'deadlock' for d in w.it.dead_states), rule, EN, text)

    seen = []

    def probe(st, what, n, fr):
        if what == 'load':
            seen.append(1)
            blocked(st, what, n, fr, 'first-record-race', 'while the engine is being loaded another thread can write (or load a second engine)')
    pol.probe = probe
    run(w, 'handle_log(MSG)\n')
    pol.probe = None
    ctx.need(seen, 'the engine is not loaded by the first record')
    # reloading
    for trigger in ('Engine().reload()', 'config.set(pool_size=2)', 'config.set(pool_size=3, max_queue_size=5)'):
        for faults in ((), ('load', 'stop')):
            pol.faults = ()
            for p0 in run(w, 'from polog.core.engine.engine import Engine\nconfig.set(pool_size=1)\nhandle_log(MSG)\n'):
                ctx.need(p0.exc is None, 'the first record is refused')
                k0 = len(p0.events())
                stale = []

                def probe(st, what, n, fr):
                    blocked(st, what, n, fr, 'blocked-while-reloading', 'another thread can write to the engine while it is being replaced (%s)' % what)
                    s = other_context(st, w.base)
                    s.locks = st.locks
                    for q in w.client(EDEFS + 'W = ENG.write\n', st=s, **binds(ENG=eng[0])):
                        stale.append((what, q.var('W')))
                pol.probe, pol.faults = probe if not faults else None, faults
                for p in p0.run(trigger):
                    if not ctx.check(p.exc is None, 'reload', EN, 'reloading raises %s' % p.show_exc(), p):
                        continue
                    o = ops(p, k0)
                    n = trigger.count('=') or 1
                    failed = any(x[2] for x in o)
                    if not failed:
                        ctx.check([x[0] for x in o] == ['stop', 'load'] * n, 'reload', EN, '%s: the old and new engines see %r' % (trigger, o), p)
                        last = n - 1
                        stops = [x[1] for x in o if x[0] == 'stop']
                        ctx.check(len(set(stops)) == len(stops), 'reload', EN, 'an engine is stopped twice', p)
                    else:
                        ctx.check(sum(x[0] == 'load' for x in o) == n, 'reload', EN, 'a failing engine: %r' % (o,), p)
                    ctx.check(not p.st.locks, 'lock-released', EN, 'the engine stays locked after reloading: every later record blocks forever', p)
                    pol.probe, pol.faults = None, ()
                    k1 = len(p.events())
                    for q in p.run('handle_log(MSG)\n'):
                        o1 = ops(q, k1)
                        ctx.check(q.exc is None and [x[0] for x in o1] == ['write'], 'after-reload', EN, 'a record after reloading: the engine sees %r (%s)' % (o1, q.show_exc()), q)
                        if not failed and o1:
                            ctx.check(o1[0][1] not in [x[1] for x in o if x[0] == 'stop'], 'after-reload', EN, 'a record after reloading goes to the old engine', q)
                    ctx.check(not any(d.dead == 'deadlock' for d in w.it.dead_states), 'lock-released', EN, 'a record after reloading blocks forever', p)
                    for what, wr in dict(stale).items() if not failed else ():
                        for q in p.run('W(RECORD)\n', W=wr, RECORD=RECORD):
                            o1 = ops(q, k1)
                            ctx.check(q.exc is None and [x[0] for x in o1] == ['write'] and o1[0][1] not in [x[1] for x in o if x[0] == 'stop'], 'waiting-writer', EN,
                                      'a record that had to wait for reloading (%s): the engine sees %r (%s)' % (what, o1, q.show_exc()), q)
                    pol.probe, pol.faults = probe if not faults else None, faults
                pol.probe, pol.faults = None, ()
                if not faults:
                    # a writer that found the engine blocked gets the lock only after the whole reload
                    for what, wr in dict(stale).items():
                        def meanwhile(st):
                            return [q.st for q in w.client(EDEFS + 'ENG.reload()\n', st=st, **binds(ENG=eng[0])) if q.exc is None]
                        pol.meanwhile = meanwhile
                        qs = p0.run('W(RECORD)\n', W=wr, RECORD=RECORD)
                        pol.meanwhile = None
                        for q in qs:
                            o1 = ops(q, k0)
                            old = [x[1] for x in o1 if x[0] == 'stop']
                            wrs = [x[1] for x in o1 if x[0] == 'write']
                            ctx.check(q.exc is None and len(wrs) == 1 and not set(wrs) & set(old), 'waiting-writer', EN, 'a record that waited for a reload (%s) goes to a stopped engine: %r' % (what, o1), q)
    # a record on its way to an engine that another thread replaces meanwhile
    for pre, when in (('handle_log(MSG)\n', 'a record outside a reload'), ('', 'the first record')):
        for p0 in run(w, 'from polog.core.engine.engine import Engine\nconfig.set(pool_size=1)\n' + pre):
            def probe(st, what, n, fr):
                if what != 'write' and what != "'write'":
                    return
                s = other_context(st, w.base)
                s.locks = st.locks
                k = len(st.events())
                bad = None
                for q in w.client(EDEFS + 'Engine().reload()\n', st=s, **binds()):
                    if ('stop', n, False) in ops(q):
                        bad = q
                ctx.check(bad is None, 'in-flight', EN + ' ' + when, 'another thread reloads the engine between the choice of the engine and the hand-over: the record goes to a stopped engine', bad)
            pol.probe = probe
            p0.run('handle_log(MSG)\n')
            pol.probe = None
    for r, n in (('one-load', 4), ('first-record-race', 1), ('blocked-while-reloading', 4), ('reload', 6), ('waiting-writer', 4), ('in-flight', 2), ('exit', 3)):
        ctx.floor(r, n)


def exit_handler(ctx, w, pol, p, fn, eng):
    k = len(p.events())
    cur = [o[1] for o in ops(p) if o[0] == 'write'][-1]
    for faults in ((), ('stop',)):
        def probe(st, what, n, fr):
            s = other_context(st, w.base)
            s.locks = st.locks
            for q in w.client(EDEFS + 'ENG.write(RECORD)\n', st=s, **binds(RECORD=RECORD, ENG=eng[0])):
                ctx.fail('exit', EN, 'at exit another thread can still write to the engine while it is being stopped', q)
        pol.faults, pol.probe = faults, probe
        for q in p.run('FN()\n', FN=fn):
            ctx.check(q.exc is None, 'exit', EN, 'the exit handler raises %s' % q.show_exc(), q)
            ctx.check([o[:2] for o in ops(q, k)] == [('stop', cur)], 'exit', EN, 'at exit the engine sees %r, so records still waiting may be lost' % (ops(q, k),), q)
            ts = [e for e in q.events('call')[0:] if e.data['name'] == 'threading.Timer']
            starts = [e for e in q.events()[k:] if e.kind == 'call' and e.data['name'] == 'threading.Timer.start']
            cancels = [e for e in q.events()[k:] if e.kind == 'call' and e.data['name'] == 'threading.Timer.cancel']
            ctx.check(len(starts) <= len(cancels), 'exit', EN, 'the timer of the exit handler is left running', q)
            # other exit handlers run after this one and may still write
            k2 = len(q.events())
            late = q.run('ENG.write(RECORD)\n', RECORD=RECORD, ENG=eng[0])
            ctx.check(bool(late), 'after-exit', EN, 'a record written after the exit handler (by another exit handler) waits for ever', q)
            for x in late:
                done = [o for o in ops(x, k2) if o[0] == 'write' and o[1] != cur] + [e for e in x.events('call') if e.data['callee'] == RECORD]
                ctx.check(x.exc is None and len(done) == 1, 'after-exit', EN, 'a record written after the exit handler is handled %d times (%s)' % (len(done), x.show_exc()), x)
        pol.faults, pol.probe = (), None
