"""Calls: argument binding, inlining, classes, generators, opaque callees."""
import ast

from .values import *


class CallMixin:
    # ------------------------------------------------------------ classes
    def mro(self, st, cls):
        k = cls.id
        if k in self.mro_cache:
            return self.mro_cache[k]
        bases = list(st.obj(cls).meta['bases'])
        bases = [b for b in bases if isinstance(b, (Ref, ExtV))]
        seqs = []
        for b in bases:
            if isinstance(b, Ref) and st.obj(b).kind == 'class':
                seqs.append(list(self.mro(st, b)))
            else:
                seqs.append([b])
        seqs.append(list(bases))
        out = [cls]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            seqs = [[x for x in s if x != c] for s in seqs]
            seqs = [s for s in seqs if s]
        obj = ExtV('builtins.object')
        out = [x for x in out if x != obj] + [obj]
        self.mro_cache[k] = out
        return out

    def class_lookup(self, st, cls, name):
        if not isinstance(cls, Ref):
            return None
        for c in self.mro(st, cls):
            if isinstance(c, Ref):
                a = st.obj(c).attrs
                if name in a:
                    return a[name]
        return None

    def issubclass_(self, st, a, b):
        if isinstance(b, TupleV):
            return any(self.issubclass_(st, a, x) for x in b.items)
        if a == b or b == ExtV('builtins.object'):
            return True
        if isinstance(a, Ref):
            for c in self.mro(st, a):
                if c == b:
                    return True
                if isinstance(c, ExtV) and isinstance(b, ExtV) and self.issubclass_(st, c, b):
                    return True
            return False
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            e = self.ext_exc(a)
            if e is not None:
                return b.name in e
            return self.ext_subclass(a, b)
        return False

    # ------------------------------------------------------------ snapshots
    def snap(self, st, v, depth=4):
        if isinstance(v, Ref) and depth:
            o = st.obj(v)
            if o.kind in ('list', 'set'):
                return Sym((o.kind,) + tuple(self.snap(st, x, depth - 1) for x in o.items), {o.kind})
            if o.kind == 'dict':
                parts = tuple(TupleV((self.snap(st, k, depth - 1), self.snap(st, x, depth - 1))) for k, x in o.items.items())
                rest = o.meta.get('rest')
                if rest is not None:
                    if not parts and not o.meta.get('gone'):
                        return rest
                    parts += (StarV(rest),)
                return Sym(('dict',) + parts, {'dict'})
        if isinstance(v, TupleV):
            items = tuple(self.snap(st, x, depth - 1) if depth else x for x in v.items)
            if len(items) == 1 and isinstance(items[0], StarV) and isinstance(items[0].src, Sym) and 'tuple' in items[0].src.tags:
                return items[0].src
            return TupleV(items)
        return v

    # ------------------------------------------------------------ calling
    def call(self, st, callee, pack, fr, n):
        self.tick()
        if isinstance(callee, BoundV):
            return self.call(st, callee.func, pack.prepend(callee.self_), fr, n)
        if isinstance(callee, Ref):
            o = st.obj(callee)
            if o.kind == 'func':
                h = self.hooks.get((o.meta['modname'], o.meta['qual'])) if self.hooks else None
                if h is not None:
                    r = h(self, st, callee, pack, fr, n)
                    if r is not None:
                        return r
                if self.is_gen(o.meta['node']):
                    return [(st, self.alloc(st, Obj('gen', meta={'func': callee, 'pack': pack, 'pos': 0})))]
                if o.meta['async']:
                    return [(st, CoroV(callee, pack))]
                return self.run_function(st, callee, pack, fr, n)
            if o.kind == 'class':
                return self.instantiate(st, callee, pack, fr, n)
            if o.kind == 'inst':
                if isinstance(o.cls, Ref):
                    f = self.class_lookup(st, o.cls, '__call__')
                    if f is not None:
                        return self.call(st, self.bind(st, f, callee, o.cls), pack, fr, n)
                return [self.raise_(st, 'TypeError', 'not callable')]
            if o.kind == 'partial':
                p = o.meta['pack']
                return self.call(st, o.meta['func'], Pack(p.pos + pack.pos, {**p.kw, **pack.kw}, p.dstar + pack.dstar), fr, n)
            if o.kind == 'gencmf':
                return [(st, self.alloc(st, Obj('gencm', meta={'func': o.meta['func'], 'pack': pack})))]
            if o.kind == 'wref':
                f = getattr(self.policy, 'wref_dead', None)
                if f is not None:
                    r = f(self, st, callee, o.meta['target'])
                    if r is not None:
                        return r
                return [(st, o.meta['target'])]
            if o.kind == 'wraps':
                return self.apply_wraps(st, o.meta['func'], pack, fr, n)
            if o.kind == 'ext':
                return self.opaque_call(st, callee, pack, fr, n)
            return [self.raise_(st, 'TypeError', 'not callable')]
        if isinstance(callee, MethV):
            return self.meth_call(st, callee, pack, fr, n)
        if isinstance(callee, ExtV):
            return self.ext_call(st, callee, pack, fr, n)
        if isinstance(callee, WrapV):
            return self.call(st, callee.func, pack, fr, n)
        if isinstance(callee, Sym):
            if st.facts.get(('none', callee)) or st.facts.get(('callable', callee)) is False or \
                    (self.sym_type(st, callee) not in (None, 'type', 'function') and 'callable' not in callee.tags):
                return [self.raise_(st, 'TypeError', 'not callable')]
            return self.opaque_call(st, callee, pack, fr, n)
        return [self.raise_(st, 'TypeError', 'not callable')]

    def is_gen(self, node):
        from .interp import is_generator
        k = id(node)
        if k not in self.gen_cache:
            self.gen_cache[k] = (node, is_generator(node))
        return self.gen_cache[k][1]

    def run_function(self, st, func, pack, fr, n):
        """inline the body of a package function -> [(st, value | Exc)]"""
        o = st.obj(func)
        node = o.meta['node']
        qual = o.meta['qual']
        key = (qual, o.meta['file'])
        depth = sum(1 for q in fr.stack if (q[0], q[1]) == key)
        if depth >= self.policy.recursion:
            self.cuts += 1
            st.dead = 'recursion'
            self.event(st, fr, n, 'cut')
            self.dead_states.append(st)
            return []
        out = []
        for s, fr2 in self.enter_function(st, func, pack, fr, n):
            if isinstance(fr2, Exc):
                out.append((s, fr2))
                continue
            if isinstance(node, ast.Lambda):
                for s2, v in self.ev(node.body, s, fr2):
                    if isinstance(v, Exc):
                        self.passed(s2, v.value, fr)
                    out.append((s2, v))
                continue
            for s2, oc in self.block(node.body, s, fr2):
                if oc is None:
                    out.append((s2, NONE))
                elif oc[0] == 'ret':
                    out.append((s2, oc[1]))
                elif oc[0] == 'exc':
                    self.passed(s2, oc[1], fr)
                    out.append((s2, Exc(oc[1], oc[2])))
                elif oc[0] == 'dead':
                    self.dead_states.append(s2)
                else:
                    out.append((s2, NONE))
        return out

    def enter_function(self, st, func, pack, fr, n):
        """bind arguments -> [(st, Frame | Exc)]"""
        from .interp import Frame
        o = st.obj(func)
        m = o.meta
        node = m['node']
        self.analysed.add((m['modname'], m['qual']))
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        ponly = {x.arg for x in a.posonlyargs}
        loc, glob, nonl = self.scope(node)
        out = []

        def bind_pos_top(s, pos):
            # concretise opaque sequences only where they would feed named parameters
            idx = next((i for i, x in enumerate(pos) if isinstance(x, StarV)), None)
            if idx is None or idx >= len(params):
                env = dict(zip(params, pos))
                return [(s, env, tuple(pos[len(params):]))]
            free = [p for p in params[idx:] if p not in pack.kw]
            src = pos[idx].src
            if not free and all(isinstance(x, StarV) for x in pos[idx:]):
                env = dict(zip(params, pos[:idx]))
                return [(s, env, tuple(pos[idx:]))]
            res = []
            for s2, ln in self.sym_len(s, src):
                res.extend(bind_pos_top(s2, pos[:idx] + tuple(self.elem(s2, src, j) for j in range(ln)) + pos[idx + 1:]))
            return res

        for s, env, rest in bind_pos_top(st, pack.pos):
            if rest and a.vararg is None:
                # opaque sequences that bring nothing are fine
                if all(isinstance(x, StarV) for x in rest):
                    for s2, ln in self.total_len(s, rest):
                        if ln:
                            out.append(self.raise_(s2, 'TypeError', 'too many positional arguments'))
                        else:
                            out.extend(self.bind_kw(s2, env, (), func, pack, fr, n, loc, glob, nonl, ponly, params))
                else:
                    out.append(self.raise_(s, 'TypeError', 'too many positional arguments'))
                continue
            out.extend(self.bind_kw(s, env, rest, func, pack, fr, n, loc, glob, nonl, ponly, params))
        return out

    def bind_kw(self, st, env, rest, func, pack, fr, n, loc, glob, nonl, ponly, params):
        from .interp import Frame
        m = st.obj(func).meta
        node = m['node']
        a = node.args
        konly = [x.arg for x in a.kwonlyargs]
        env = dict(env)
        extra = {}
        for k, v in pack.kw.items():
            if isinstance(k, str) and (k in konly or (k in params and k not in ponly)):
                if k in env:
                    return [self.raise_(st, 'TypeError', 'multiple values for argument ' + k)]
                env[k] = v
            else:
                extra[k] = v
        if extra and a.kwarg is None:
            if all(isinstance(k, str) for k in extra):
                return [self.raise_(st, 'TypeError', 'unexpected keyword argument ' + sorted(extra)[0])]
            # opaque names: may or may not match a parameter
            res = []
            for k, v in extra.items():
                if not isinstance(k, str):
                    return self.bind_opaque_key(st, k, v, func, pack, fr, n)
            return res
        defaults = dict(zip(params[len(params) - len(m['defaults']):], m['defaults'])) if m['defaults'] else {}
        defaults.update(m['kwdefaults'])
        res = [(st, env, frozenset())]
        if a.kwarg is not None or pack.dstar:
            for k in list(extra):
                if not isinstance(k, str) and (set(params) | set(konly)) - set(env):
                    return self.bind_opaque_key(st, k, extra[k], func, pack, fr, n)
        missing = [p for p in params + konly if p not in env]
        for p in missing:
            nres = []
            for s, e, gone in res:
                if isinstance(e, Exc):
                    nres.append((s, e, gone))
                    continue
                cur = [s]
                if p not in ponly:
                    for d in pack.dstar:
                        nxt = []
                        for s2 in cur:
                            if s2.facts.get(('len', d)) == 0:
                                nxt.append(s2)
                                continue
                            for s3, b in self.decide(s2, ('in', Const(p), d)):
                                if b:
                                    nres.append((s3, {**e, p: self.rest_item(s3, d, Const(p))}, gone | {Const(p)}))
                                else:
                                    nxt.append(s3)
                        cur = nxt
                for s2 in cur:
                    if p in defaults:
                        nres.append((s2, {**e, p: defaults[p]}, gone))
                    else:
                        s2, x = self.raise_(s2, 'TypeError', 'missing argument ' + p)
                        nres.append((s2, x, gone))
            res = nres
        out = []
        for s, e, gone in res:
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            attrs = dict(e)
            if a.vararg is not None:
                attrs[a.vararg.arg] = TupleV(rest)
            if a.kwarg is not None:
                meta = {}
                if pack.dstar:
                    r = pack.dstar[0]
                    for d in pack.dstar[1:]:
                        r = r if d == r else Sym(('merge', r, d), {'dict'})
                    meta['rest'] = r
                    if gone:
                        meta['gone'] = gone
                attrs[a.kwarg.arg] = self.alloc(s, Obj('dict', items={(Const(k) if isinstance(k, str) else k): v for k, v in extra.items()}, meta=meta))
            first = attrs.get(params[0]) if params else None
            ev = self.alloc(s, Obj('env', attrs=attrs, meta={'parent': m['env'], 'locals': loc, 'globals': glob, 'nonlocals': nonl, 'first': first}))
            line = getattr(n, 'lineno', 0)
            fr2 = Frame(ev, m['module'], func, m['cls'], fr.stack + ((m['qual'], m['file'], line),), m['file'])
            self.event(s, fr2, n, 'enter', func=func, mod=m['modname'], qual=m['qual'], args=attrs)
            out.append((s, fr2))
        return out

    def bind_opaque_key(self, st, k, v, func, pack, fr, n):
        """a keyword argument whose name is not known: it may be any of the parameters"""
        m = st.obj(func).meta
        a = m['node'].args
        names = [x.arg for x in a.args + a.kwonlyargs if x.arg not in pack.kw]
        names = names[len([x for x in pack.pos if not isinstance(x, StarV)]):] if a.args else names
        out = []
        cur = [st]
        kw = {x: y for x, y in pack.kw.items() if x != k}
        for nm in names:
            nxt = []
            for s in cur:
                for s2, b in self.equal(s, k, Const(nm)):
                    if b is True:
                        out.extend(self.enter_function(s2, func, Pack(pack.pos, {**kw, nm: v}, pack.dstar), fr, n))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            if a.kwarg is None:
                out.append(self.raise_(s, 'TypeError', 'unexpected keyword argument'))
            else:
                p = Pack(pack.pos, kw, pack.dstar)
                for s2, f2 in self.enter_function(s, func, p, fr, n):
                    if not isinstance(f2, Exc):
                        d = s2.obj(f2.env).attrs[a.kwarg.arg]
                        s2.mut(d).items[k] = v
                    out.append((s2, f2))
        return out

    # ------------------------------------------------------------ generators
    def run_generator(self, st, ref, fr, n, limit=None):
        o = st.obj(ref)
        if 'buf' in o.meta:
            items = list(o.meta['buf'])[o.meta.get('pos', 0):]
            m = st.mut(ref)
            m.meta = dict(m.meta)
            m.meta['pos'] = len(o.meta['buf'])
            return self.concrete(st, items) if any(isinstance(x, StarV) for x in items) else [(st, items)]
        func, pack = o.meta['func'], o.meta['pack']
        fo = st.obj(func)
        key = (fo.meta['qual'], fo.meta['file'])
        if sum(1 for q in fr.stack if (q[0], q[1]) == key) >= self.policy.recursion:
            st.dead = 'recursion'
            self.cuts += 1
            self.dead_states.append(st)
            return []
        out = []
        for s, fr2 in self.enter_function(st, func, pack, fr, n):
            if isinstance(fr2, Exc):
                out.append((s, fr2))
                continue
            box = self.alloc(s, Obj('list', items=[], meta={'limit': limit}))
            fr2.yields = box
            for s2, oc in self.block(fo.meta['node'].body, s, fr2):
                if oc is not None and oc[0] == 'exc':
                    out.append((s2, Exc(oc[1], oc[2])))
                elif oc is not None and oc[0] == 'dead':
                    self.dead_states.append(s2)
                else:
                    items = list(s2.obj(box).items)
                    out.extend(self.concrete(s2, items) if any(isinstance(x, StarV) for x in items) else [(s2, items)])
        return out

    def gen_next(self, st, ref, fr, n):
        """next(generator) -> [(st, value | Exc)]"""
        o = st.obj(ref)
        pos = o.meta.get('pos', 0)

        def step(s, items):
            m = s.mut(ref)
            m.meta = dict(m.meta)
            m.meta['pos'] = pos + 1
            if pos < len(items):
                return [(s, items[pos])]
            return [self.raise_(s, 'StopIteration')]
        if 'buf' in o.meta:
            buf = list(o.meta['buf'])
            if any(isinstance(x, StarV) for x in buf):
                return self.map(self.concrete(st, buf), step)
            return step(st, buf)
        return self.map(self.run_generator(st, ref, fr, n, limit=pos + 1), step)

    # ------------------------------------------------------------ instantiation
    def instantiate(self, st, cls, pack, fr, n):
        h = self.hooks.get(('class', st.obj(cls).meta['qual'])) if self.hooks else None
        if h is not None:
            r = h(self, st, cls, pack, fr, n)
            if r is not None:
                return r
        new = self.class_lookup(st, cls, '__new__')
        if new is not None:
            f = new.func if isinstance(new, WrapV) else new
            res = self.call(st, f, pack.prepend(cls), fr, n)

            def init(s, v):
                if isinstance(v, Ref) and s.obj(v).kind == 'inst' and isinstance(s.obj(v).cls, Ref) and cls in self.mro(s, s.obj(v).cls):
                    return self.init_(s, v, cls, pack, fr, n, True)
                return [(s, v)]
            return self.map(res, init)
        attrs = {}
        if self.is_exc_class(st, cls):
            attrs['args'] = TupleV(pack.pos)
        inst = self.alloc(st, Obj('inst', cls=cls, attrs=attrs))
        return self.init_(st, inst, cls, pack, fr, n, False)

    def init_(self, st, inst, cls, pack, fr, n, custom_new):
        init = self.class_lookup(st, cls, '__init__')
        if init is not None:
            return self.map(self.call(st, self.bind(st, init, inst, cls), pack, fr, n), lambda s, _: [(s, inst)])
        o = st.obj(cls)
        dc = next((c for c in self.mro(st, cls) if isinstance(c, Ref) and st.obj(c).meta.get('dataclass')), None)
        if dc is not None:
            fields = []
            for c in reversed(self.mro(st, cls)):
                if isinstance(c, Ref):
                    for nm, dv in st.obj(c).meta.get('ann') or ():
                        fields = [x for x in fields if x != nm] + [nm]
            vals = {}
            pos = list(pack.pos)
            if len(pos) > len(fields):
                return [self.raise_(st, 'TypeError', 'too many arguments')]
            for nm, v in zip(fields, pos):
                vals[nm] = v
            for k, v in pack.kw.items():
                if k not in fields or k in vals:
                    return [self.raise_(st, 'TypeError', 'unexpected keyword')]
                vals[k] = v
            for nm in fields:
                if nm not in vals:
                    d = self.class_lookup(st, cls, nm)
                    if d is None:
                        return [self.raise_(st, 'TypeError', 'missing ' + nm)]
                    vals[nm] = d
            m = st.mut(inst)
            m.attrs.update(vals)
            return [(st, inst)]
        if (pack.pos or pack.kw) and not custom_new and not self.ext_bases(st, cls):
            return [self.raise_(st, 'TypeError', 'takes no arguments')]
        return [(st, inst)]

    # ------------------------------------------------------------ opaque callees
    def callee_name(self, st, c):
        if isinstance(c, ExtV):
            return c.name
        if isinstance(c, MethV):
            b = c.base
            if isinstance(b, Ref):
                o = st.obj(b)
                if o.kind in ('ext', 'lock'):
                    return '%s.%s' % (o.cls.name if isinstance(o.cls, ExtV) else o.kind, c.name)
                if o.kind == 'inst' and isinstance(o.cls, Ref):
                    return '%s.%s' % (st.obj(o.cls).meta['name'], c.name)
                return '%s.%s' % (o.kind, c.name)
            if isinstance(b, Sym):
                return '%r.%s' % (b, c.name)
            return '%s.%s' % (type(b).__name__, c.name)
        return repr(c)

    def opaque_call(self, st, callee, pack, fr, n, awaited=False, tags=()):
        """call of something outside the package"""
        if isinstance(callee, Sym) and 'asyncfn' in callee.tags and not awaited:
            return [(st, CoroV(callee, pack))]
        name = self.callee_name(st, callee)
        self.opaque_seen[name] = self.opaque_seen.get(name, 0) + 1
        f = getattr(self.policy, 'call', None)
        if f is not None:
            r = f(self, st, callee, name, pack, fr, n)
            if r is not None:
                return r
        k = st.count(('call', callee))
        out = []
        for i, ec in enumerate(self.policy.may_raise(self, st, callee, name, pack)):
            s = st.fork()
            if ec in ('Exception', 'BaseException'):
                e = Sym(('exc', callee, k, ec), {'exc', ec, 'user'})
            elif isinstance(ec, str):
                e = self.make_exc(s, ec, Sym(('msg', callee, k), {'str'}))
            elif isinstance(ec, Sym):
                e = ec
            else:
                e = self.alloc(s, Obj('inst', cls=ec, attrs={'args': TupleV(())}))
            self.event(s, fr, n, 'call', callee=callee, name=name, pack=pack, raised=e, awaited=awaited, result=None)
            if self.policy.tracebacks:
                s.counters[('tb', e)] = (('opaque', callee),)
                self.passed(s, e, fr)
            out.append((s, Exc(e, self.loc(fr, n))))
        v = self.policy.result(self, st, callee, name, pack)
        if v is None:
            t = set(tags)
            if isinstance(callee, Sym):
                t |= callee.tags & {'user'}
                if 'type' in callee.tags:
                    t.add('inst')
                for x in callee.tags:
                    if isinstance(x, str) and x.startswith('ret:'):
                        t |= set(x[4:].split('|'))
            v = Sym(('res', callee, k), t)
        self.event(st, fr, n, 'call', callee=callee, name=name, pack=pack, raised=None, awaited=awaited, result=v)
        return [(st, v)] + out
