"""Expressions, names, attributes, comparisons of the abstract interpreter."""
import ast
import builtins as _b
import operator
import re
import string

from .values import *

BINOPS = {
    ast.Add: ('+', operator.add), ast.Sub: ('-', operator.sub), ast.Mult: ('*', operator.mul), ast.Div: ('/', operator.truediv),
    ast.FloorDiv: ('//', operator.floordiv), ast.Mod: ('%', operator.mod), ast.Pow: ('**', operator.pow),
    ast.BitOr: ('|', operator.or_), ast.BitAnd: ('&', operator.and_), ast.BitXor: ('^', operator.xor),
    ast.LShift: ('<<', operator.lshift), ast.RShift: ('>>', operator.rshift), ast.MatMult: ('@', operator.matmul),
}
CMPOPS = {
    ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
    ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in',
}
NEG = {'!=': '==', 'is not': 'is', 'not in': 'in'}
def percent(text, arg):
    """the parts of `text % arg`, or None"""
    if isinstance(arg, TupleV):
        vals = list(arg.items)
    elif isinstance(arg, (Ref,)) or (isinstance(arg, Sym) and not arg.tags & {'str', 'int', 'float', 'bool'}):
        return None                      # may be a tuple or a mapping
    else:
        vals = [arg]
    out, pos = [], 0
    for m in re.finditer(r'%(?:%|([-0 +#]*[0-9]*(?:[.][0-9]+)?)([srdf]))', text):
        if '%' in text[pos:m.start()]:
            return None
        out.append(text[pos:m.start()])
        pos = m.end()
        if m.group(2) is None:
            out.append('%')
            continue
        if not vals:
            return None
        spec, kind = m.group(1), m.group(2)
        if kind in 'sr':
            if spec:
                return None
            out.append((vals.pop(0), 'str' if kind == 's' else 'repr', ''))
        elif kind == 'd' and not spec and isinstance(vals[0], Sym) and vals[0].tags & {'int'}:
            out.append((vals.pop(0), 'str', ''))
        elif kind == 'f':
            out.append((vals.pop(0), 'str', spec + kind))
        else:
            return None
    if vals or '%' in text[pos:]:
        return None
    return out + [text[pos:]]


def braces(text, pos, kw):
    """the parts of text.format(*pos, **kw), or None"""
    out, auto = [], 0
    try:
        for lit, name, spec, conv in string.Formatter().parse(text):
            out.append(lit)
            if name is None:
                continue
            if name == '':
                name, auto = str(auto), auto + 1
            if name.isdigit() and int(name) < len(pos):
                v = pos[int(name)]
            elif name in kw:
                v = kw[name]
            else:
                return None
            if '{' in spec or (conv and spec):
                return None
            out.append((v, 'repr' if conv == 'r' else 'str', spec))
    except ValueError:
        return None
    return out


DUNDER = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '|': '__or__', '&': '__and__', '%': '__mod__', '^': '__xor__',
          '//': '__floordiv__', '**': '__pow__', '<<': '__lshift__', '>>': '__rshift__', '@': '__matmul__'}
CMPD = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
NUM = (int, float)
TYPES_OF = {'list': 'builtins.list', 'dict': 'builtins.dict', 'set': 'builtins.set', 'func': 'types.FunctionType',
            'class': 'builtins.type', 'module': 'types.ModuleType', 'gen': 'types.GeneratorType'}


class ExprMixin:
    def ev(self, n, st, fr):
        self.tick()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            from .interp import AnalysisError
            raise AnalysisError('unsupported expression %s at %s' % (type(n).__name__, self.loc(fr, n)))
        return m(n, st, fr)

    def evs(self, nodes, st, fr):
        """evaluate in order -> [(st, TupleV | Exc)] (Starred elements are expanded)"""
        res = [(st, ())]
        for n in nodes:
            out = []
            for s, acc in res:
                if isinstance(acc, Exc):
                    out.append((s, acc))
                    continue
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s, fr):
                        if isinstance(v, Exc):
                            out.append((s2, v))
                        else:
                            for s3, xs in self.expand(s2, v, fr, n):
                                out.append((s3, xs if isinstance(xs, Exc) else acc + tuple(xs)))
                else:
                    for s2, v in self.ev(n, s, fr):
                        out.append((s2, v if isinstance(v, Exc) else acc + (v,)))
            res = out
        return [(s, v if isinstance(v, Exc) else TupleV(v)) for s, v in res]

    def expand(self, st, v, fr, n):
        """elements for *v, keeping opaque sequences opaque"""
        if isinstance(v, TupleV):
            return [(st, list(v.items))]
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ('list', 'set'):
                return [(st, list(o.items))]
        if isinstance(v, Sym):
            return [(st, [StarV(v)])]
        return self.iter_values(st, v, fr, n)

    # ------------------------------------------------------------ names
    def e_Name(self, n, st, fr):
        return self.load_name(n.id, st, fr, n)

    def scope(self, node):
        from .interp import scope_names
        k = id(node)
        if k not in self.scope_cache:
            self.scope_cache[k] = (node, scope_names(node))
        return self.scope_cache[k][1]

    def load_name(self, name, st, fr, n):
        if fr.classenv is not None:
            a = st.obj(fr.classenv).attrs
            if name in a and not (name in ('__name__', '__qualname__', '__module__')):
                return [(st, a[name])]
        env = fr.env
        first = True
        while env is not None:
            o = st.obj(env)
            if o.kind == 'module':
                break
            if name in o.attrs:
                return [(st, o.attrs[name])]
            glob = o.meta.get('globals') or ()
            if name in glob:
                break
            if first and fr.classenv is None and name in (o.meta.get('locals') or ()):
                return [self.raise_(st, 'UnboundLocalError', name)]
            first = False
            env = o.meta.get('parent')
        m = st.obj(fr.module)
        if name in m.attrs:
            return [(st, m.attrs[name])]
        if name == '__debug__':
            return [(st, Sym(('__debug__',), {'bool'}))]
        if name == '__class__' and fr.cls is not None:
            return [(st, fr.cls)]
        if name in st.counters.get('builtins', {}):
            return [(st, st.counters['builtins'][name])]
        if hasattr(_b, name):
            v = getattr(_b, name)
            if name in ('Ellipsis', 'NotImplemented'):
                return [(st, Const(v))]
            return [(st, ExtV('builtins.' + name))]
        if name == '__file__':
            return [(st, Sym('__file__', {'str'}))]
        if name == '__name__':
            return [(st, m.attrs.get('__name__', Sym('__name__', {'str'})))]
        return [self.raise_(st, 'NameError', name)]

    def store_name(self, name, v, st, fr):
        if fr.classenv is not None:
            st.mut(fr.classenv).attrs[name] = v
            return
        env = fr.env
        o = st.obj(env)
        if o.kind != 'module':
            if name in (o.meta.get('globals') or ()):
                self.event(st, fr, None, 'store', obj=fr.module, attr=name, value=v)
                st.mut(fr.module).attrs[name] = v
                return
            if name in (o.meta.get('nonlocals') or ()):
                e = o.meta.get('parent')
                while e is not None:
                    eo = st.obj(e)
                    if name in eo.attrs or name in (eo.meta.get('locals') or ()):
                        self.event(st, fr, None, 'store', obj=e, attr=name, value=v)
                        st.mut(e).attrs[name] = v
                        return
                    e = eo.meta.get('parent')
            if o.meta.get('comp') and not name.startswith('\0'):
                if name not in o.meta['comp']:
                    st.mut(o.meta['parent'] or fr.module).attrs[name] = v
                    return
        st.mut(env).attrs[name] = v

    def assign(self, t, v, st, fr):
        """-> [(st, NONE | Exc)]"""
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, fr)
            return [(st, NONE)]
        if isinstance(t, ast.Attribute):
            return self.map(self.ev(t.value, st, fr), lambda s, o: self.setattr(s, o, t.attr, v, fr, t))
        if isinstance(t, ast.Subscript):
            def k(s, pair):
                return self.setitem(s, pair.items[0], pair.items[1], v, fr, t)
            return self.map(self.evs([t.value, t.slice], st, fr), k)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for s, items in self.unpack_values(st, v, len(t.elts), bool(star), fr, t):
                if isinstance(items, Exc):
                    out.append((s, items))
                    continue
                if star:
                    i = star[0]
                    after = len(t.elts) - i - 1
                    mid = items[i:len(items) - after]
                    lst = self.alloc(s, Obj('list', items=list(mid)))
                    items = items[:i] + [lst] + (items[len(items) - after:] if after else [])
                if len(items) != len(t.elts):
                    out.append(self.raise_(s, 'ValueError', 'unpack'))
                    continue
                res = [(s, NONE)]
                for e, x in zip(t.elts, items):
                    res = self.map(res, lambda s2, _, e=e, x=x: self.assign(e, x, s2, fr))
                out.extend(res)
            return out
        from .interp import AnalysisError
        raise AnalysisError('unsupported assignment target')

    def unpack_values(self, st, v, n, star, fr, node):
        if isinstance(v, Sym) and not star:
            k = st.facts.get(('len', v))
            if k is None:
                st.facts[('len', v)] = n
                return [(st, [self.elem(st, v, i) for i in range(n)])]
        return self.iter_values(st, v, fr, node)

    def delete(self, t, st, fr):
        if isinstance(t, ast.Name):
            for e in (fr.classenv, fr.env):
                if e is not None and t.id in st.obj(e).attrs:
                    del st.mut(e).attrs[t.id]
                    break
            return [(st, NONE)]
        if isinstance(t, ast.Attribute):
            return self.map(self.ev(t.value, st, fr), lambda s, o: self.delattr(s, o, t.attr, fr, t))
        if isinstance(t, ast.Subscript):
            return self.map(self.evs([t.value, t.slice], st, fr), lambda s, p: self.delitem(s, p.items[0], p.items[1], fr, t))
        if isinstance(t, (ast.Tuple, ast.List)):
            res = [(st, NONE)]
            for e in t.elts:
                res = self.map(res, lambda s, _, e=e: self.delete(e, s, fr))
            return res
        return [(st, NONE)]

    # ------------------------------------------------------------ literals
    def e_Constant(self, n, st, fr):
        return [(st, Const(n.value))]

    def e_Tuple(self, n, st, fr):
        return self.evs(n.elts, st, fr)

    def e_List(self, n, st, fr):
        return self.map(self.evs(n.elts, st, fr), lambda s, t: [(s, self.alloc(s, Obj('list', items=list(t.items))))])

    def e_Set(self, n, st, fr):
        def k(s, t):
            items = []
            for x in t.items:
                if x not in items:
                    items.append(x)
            return [(s, self.alloc(s, Obj('set', items=items)))]
        return self.map(self.evs(n.elts, st, fr), k)

    def e_Dict(self, n, st, fr):
        res = [(st, self.alloc(st, Obj('dict', items={})))]
        for kn, vn in zip(n.keys, n.values):
            if kn is None:
                res = self.map(res, lambda s, d, vn=vn: self.map(self.ev(vn, s, fr), lambda s2, m: self.map(self.dict_update(s2, d, m, fr, n), lambda s3, _: [(s3, d)])))
            else:
                def k(s, d, kn=kn, vn=vn):
                    return self.map(self.evs([kn, vn], s, fr), lambda s2, p: self.map(self.dict_set(s2, d, p.items[0], p.items[1], fr, n), lambda s3, _: [(s3, d)]))
                res = self.map(res, k)
        return res

    def e_JoinedStr(self, n, st, fr):
        res = [(st, ())]
        for p in n.values:
            out = []
            for s, acc in res:
                if isinstance(acc, Exc):
                    out.append((s, acc))
                    continue
                if isinstance(p, ast.Constant):
                    out.append((s, acc + (Const(p.value),)))
                    continue
                for s2, v in self.ev(p.value, s, fr):
                    if isinstance(v, Exc):
                        out.append((s2, v))
                        continue
                    for s3, x in self.to_str(s2, v, fr, n, 'repr' if p.conversion == ord('r') else 'str'):
                        if isinstance(x, Exc):
                            out.append((s3, x))
                            continue
                        if p.format_spec is not None:
                            for s4, f in self.ev(p.format_spec, s3, fr):
                                if isinstance(f, Exc):
                                    out.append((s4, f))
                                elif isinstance(v, Const) and isinstance(f, Const):
                                    try:
                                        out.append((s4, acc + (Const(format(v.v, f.v)),)))
                                    except Exception as e:
                                        out.append(self.raise_(s4, type(e).__name__, str(e)))
                                else:
                                    out.append((s4, acc + (Sym(('format', v, f), {'str'}),)))
                        else:
                            out.append((s3, acc + (x,)))
            res = out
        fin = []
        for s, acc in res:
            if isinstance(acc, Exc):
                fin.append((s, acc))
                continue
            fin.append((s, self.concat(acc)))
        return fin

    def template(self, st, parts, fr, n):
        """the text made of literals and of values with a conversion and a format -> [(st, text | Exc)]"""
        res = [(st, ())]
        for p in parts:
            if isinstance(p, str):
                res = [(s, acc if isinstance(acc, Exc) else acc + (Const(p),)) for s, acc in res]
                continue
            v, conv, spec = p
            out = []
            for s, acc in res:
                if isinstance(acc, Exc):
                    out.append((s, acc))
                    continue
                for s2, x in self.to_str(s, v, fr, n, conv):
                    if isinstance(x, Exc):
                        out.append((s2, x))
                    elif not spec:
                        out.append((s2, acc + (x,)))
                    elif isinstance(v, Const):
                        try:
                            out.append((s2, acc + (Const(format(v.v, spec)),)))
                        except Exception as e:
                            out.append(self.raise_(s2, type(e).__name__, str(e)))
                    else:
                        out.append((s2, acc + (Sym(('format', v, Const(spec)), {'str'}),)))
            res = out
        return [(s, acc if isinstance(acc, Exc) else self.concat(acc)) for s, acc in res]

    def concat(self, parts):
        flat = []
        for p in parts:
            sub = p.name[1:] if isinstance(p, Sym) and p.name[0] == 'fstr' else (p,)
            for q in sub:
                if isinstance(q, Const) and isinstance(q.v, str):
                    if not q.v:
                        continue
                    if flat and isinstance(flat[-1], Const):
                        flat[-1] = Const(flat[-1].v + q.v)
                        continue
                flat.append(q)
        if not flat:
            return Const('')
        if len(flat) == 1 and isinstance(flat[0], Const):
            return flat[0]
        if len(flat) == 1 and isinstance(flat[0], Sym) and 'str' in flat[0].tags:
            return flat[0]
        return Sym(('fstr',) + tuple(flat), {'str'})

    def to_str(self, st, v, fr, n, kind='str'):
        """str(v) / repr(v) -> [(st, string value | Exc)]"""
        if isinstance(v, Const):
            try:
                return [(st, Const(str(v.v) if kind == 'str' else repr(v.v)))]
            except Exception:
                pass
        if isinstance(v, Sym):
            t = self.sym_type(st, v)
            if t == 'str' and kind == 'str' and ('sub' not in v.tags or st.facts.get(('exact', v))):
                return [(st, v)]
            term = Sym((kind, v), {'str'})
            safe = t in ('int', 'float', 'NoneType', 'str', 'bytes', 'complex', 'type', 'module', 'function') or v.tags & {'bool', 'rank'}
            if 'user' in v.tags and not safe and self.policy.user_str_raises:
                k = st.facts.get(('strok', v))
                if k is True:
                    return [(st, term)]
                ex = Exc(Sym(('exc', kind, v), {'exc', 'Exception', 'user'}), self.loc(fr, n))
                if k is False:
                    return [(st, ex)]
                f = st.fork()
                st.facts[('strok', v)] = True
                f.facts[('strok', v)] = False
                return [(st, term), (f, ex)]
            return [(st, term)]
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == 'inst' and isinstance(o.cls, Ref):
                for m in (('__str__', '__repr__') if kind == 'str' else ('__repr__',)):
                    f = self.class_lookup(st, o.cls, m)
                    if f is not None:
                        return self.call(st, BoundV(f, v), Pack(), fr, n)
            if o.kind == 'inst':
                args = o.attrs.get('args')
                if kind == 'str' and isinstance(args, TupleV) and self.is_exc_class(st, o.cls):
                    if not args.items:
                        return [(st, Const(''))]
                    if len(args.items) == 1 and not isinstance(args.items[0], StarV):
                        return self.to_str(st, args.items[0], fr, n, kind)
            if o.kind in ('list', 'set', 'dict'):
                return [(st, Sym((kind, self.snap(st, v)), {'str'}))]
            return [(st, Sym((kind, v), {'str'}))]
        if isinstance(v, TupleV):
            res = [(st, ())]
            for x in v.items:
                y = x.src if isinstance(x, StarV) else x
                res = [(s2, z if isinstance(z, Exc) else acc + (z,)) for s, acc in res if not isinstance(acc, Exc) for s2, z in self.to_str(s, y, fr, n, 'repr')] + [(s, acc) for s, acc in res if isinstance(acc, Exc)]
            return [(s, acc if isinstance(acc, Exc) else Sym((kind, v), {'str'})) for s, acc in res]
        return [(st, Sym((kind, v), {'str'}))]

    def e_FormattedValue(self, n, st, fr):
        return self.map(self.ev(n.value, st, fr), lambda s, v: self.to_str(s, v, fr, n))

    # ------------------------------------------------------------ operators
    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        res = self.ev(n.values[0], st, fr)
        for nx in n.values[1:]:
            out = []
            for s, v in res:
                if isinstance(v, Exc) or isinstance(v, tuple):
                    out.append((s, v))
                    continue
                for s2, b in self.truth(s, v, fr, n):
                    if isinstance(b, Exc):
                        out.append((s2, b))
                    elif b == isand:
                        out.extend(self.ev(nx, s2, fr))
                    else:
                        out.append((s2, ('done', v, b)))
            res = out
        fin = []
        for s, v in res:
            if isinstance(v, tuple):
                v = v[1]
            fin.append((s, v))
        return fin

    def e_UnaryOp(self, n, st, fr):
        out = []
        for s, v in self.ev(n.operand, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            if isinstance(n.op, ast.Not):
                for s2, b in self.truth(s, v, fr, n):
                    out.append((s2, b if isinstance(b, Exc) else boolv(not b)))
            else:
                nm = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(n.op)]
                if isinstance(v, Const):
                    try:
                        out.append((s, Const({'__neg__': operator.neg, '__pos__': operator.pos, '__invert__': operator.invert}[nm](v.v))))
                    except Exception as e:
                        out.append(self.raise_(s, type(e).__name__))
                elif isinstance(v, Ref):
                    out.extend(self.map(self.getattr(s, v, nm, fr, n), lambda s2, f: self.call(s2, f, Pack(), fr, n)))
                else:
                    out.append((s, Sym((nm, v), (v.tags & {'int', 'float'}) if isinstance(v, Sym) else ())))
        return out

    def e_BinOp(self, n, st, fr):
        return self.map(self.evs([n.left, n.right], st, fr), lambda s, p: self.binop(n.op, p.items[0], p.items[1], s, fr, n))

    def binop_inplace(self, op, a, b, st, fr, n):
        if isinstance(a, Ref):
            o = st.obj(a)
            if isinstance(op, ast.Add) and o.kind == 'list':
                def k(s, xs):
                    s.mut(a).items.extend(xs)
                    return [(s, a)]
                return self.map(self.expand(st, b, fr, n), k)
            if isinstance(op, ast.BitOr) and o.kind == 'dict':
                return self.map(self.dict_update(st, a, b, fr, n), lambda s, _: [(s, a)])
            if isinstance(op, ast.BitOr) and o.kind == 'set':
                def k2(s, xs):
                    m = s.mut(a)
                    for x in xs:
                        if x not in m.items:
                            m.items.append(x)
                    return [(s, a)]
                return self.map(self.expand(st, b, fr, n), k2)
        return self.binop(op, a, b, st, fr, n)

    def binop(self, op, a, b, st, fr, n):
        sym, fn = BINOPS[type(op)]
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                if sym in ('**', '<<') and isinstance(b.v, int) and b.v > 256:
                    raise OverflowError
                return [(st, Const(fn(a.v, b.v)))]
            except Exception as e:
                return [self.raise_(st, type(e).__name__, str(e))]
        if sym == '+' and isinstance(a, TupleV) and isinstance(b, TupleV):
            return [(st, TupleV(a.items + b.items))]
        if sym == '+' and isinstance(a, TupleV) and isinstance(b, Sym):
            return [(st, TupleV(a.items + (StarV(b),)))]
        if sym == '+' and isinstance(b, TupleV) and isinstance(a, Sym):
            return [(st, TupleV((StarV(a),) + b.items))]
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = st.obj(a), st.obj(b)
            if sym == '+' and x.kind == 'list' and y.kind == 'list':
                return [(st, self.alloc(st, Obj('list', items=list(x.items) + list(y.items))))]
            if sym == '|' and x.kind == 'dict' and y.kind == 'dict':
                d = self.alloc(st, Obj('dict', items=dict(x.items), meta=dict(x.meta)))
                return self.map(self.dict_update(st, d, b, fr, n), lambda s, _: [(s, d)])
            if x.kind == 'set' and y.kind == 'set':
                if sym == '|':
                    return [(st, self.alloc(st, Obj('set', items=list(x.items) + [i for i in y.items if i not in x.items])))]
                if sym == '&':
                    return [(st, self.alloc(st, Obj('set', items=[i for i in x.items if i in y.items])))]
                if sym == '-':
                    return [(st, self.alloc(st, Obj('set', items=[i for i in x.items if i not in y.items])))]
        for z, w in ((a, b), (b, a)):
            if isinstance(z, Ref) and st.obj(z).kind == 'inst' and isinstance(st.obj(z).cls, Ref):
                d = DUNDER[sym]
                if z is b:
                    d = '__r' + d[2:]
                f = self.class_lookup(st, st.obj(z).cls, d)
                if f is not None:
                    return self.call(st, BoundV(f, z), Pack((w,)), fr, n)
        tags = set()
        isstr = lambda v: (isinstance(v, Const) and isinstance(v.v, str)) or (isinstance(v, Sym) and self.sym_type(st, v) == 'str')
        isnum = lambda v: (isinstance(v, Const) and isinstance(v.v, NUM)) or (isinstance(v, Sym) and (self.sym_type(st, v) in ('int', 'float') or 'rank' in v.tags))
        if sym == '+' and isstr(a) and isstr(b):
            return [(st, self.concat((a, b)))]
        if sym == '%' and isinstance(a, Const) and isinstance(a.v, str):
            parts = percent(a.v, b)
            if parts is not None:
                return self.template(st, parts, fr, n)
        if sym == '%' and isstr(a):
            tags = {'str'}
        elif isnum(a) and isnum(b):
            tags = {'float'} if sym == '/' or any((isinstance(v, Const) and isinstance(v.v, float)) or (isinstance(v, Sym) and self.sym_type(st, v) == 'float') for v in (a, b)) else {'int'}
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Const) and not isinstance(x.v, bool):
                    if sym == '+' and x.v == 0 or sym == '*' and x.v == 1:
                        return [(st, y)]
            if sym in ('+', '*') and repr(b) < repr(a):
                a, b = b, a
        return [(st, Sym((sym, a, b), tags))]

    def e_Compare(self, n, st, fr):
        def step(s, left, i):
            if i == len(n.ops):
                return [(s, TRUE)]

            def k(s2, right):
                out = []
                for s3, b in self.compare(s2, CMPOPS[type(n.ops[i])], left, right, fr, n):
                    if isinstance(b, Exc):
                        out.append((s3, b))
                    elif i == len(n.ops) - 1:
                        out.append((s3, b))
                    elif isinstance(b, Const) and not b.v:
                        out.append((s3, FALSE))
                    else:
                        out.extend(step(s3, right, i + 1))
                return out
            return self.map(self.ev(n.comparators[i], s, fr), k)
        return self.map(self.ev(n.left, st, fr), lambda s, v: step(s, v, 0))

    def compare(self, st, op, a, b, fr, n):
        """-> [(st, Const bool | Exc)]"""
        if op in NEG and not (op == '!=' and self.has_dunder(st, a, '__ne__')):
            return [(s, r if isinstance(r, Exc) else boolv(not r.v)) for s, r in self.compare(st, NEG[op], a, b, fr, n)]
        if op == 'is':
            return [(s, boolv(r)) for s, r in self.same(st, a, b)]
        if op == 'in':
            return self.contains(st, b, a, fr, n)
        for x, y, o2 in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
            if self.has_dunder(st, x, CMPD[o2]):
                f = self.class_lookup(st, st.obj(x).cls, CMPD[o2])
                out = []
                for s, r in self.call(st, BoundV(f, x), Pack((y,)), fr, n):
                    if isinstance(r, Exc):
                        out.append((s, r))
                    else:
                        out.extend((s2, t if isinstance(t, Exc) else boolv(t)) for s2, t in self.truth(s, r, fr, n))
                return out
        if op == '==':
            return [(s, r if isinstance(r, Exc) else boolv(r)) for s, r in self.equal(st, a, b, fr, n)]
        # ordering
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return [(st, boolv({'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op](a.v, b.v)))]
            except TypeError as e:
                return [self.raise_(st, 'TypeError', str(e))]
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            return [(s, boolv(r)) for s, r in self.decide(st, (op, a, b))]
        bad = lambda v: (isinstance(v, Const) and not isinstance(v.v, NUM)) or (isinstance(v, Sym) and (self.sym_type(st, v) in ('NoneType', 'dict', 'type', 'module', 'function') or st.facts.get(('none', v))))
        num = lambda v: (isinstance(v, Const) and isinstance(v.v, NUM)) or (isinstance(v, Sym) and (v.tags & {'rank', 'int', 'float', 'bool'} or self.sym_type(st, v) in ('int', 'float')))
        if (bad(a) and not bad(b)) or (bad(b) and not bad(a)):
            return [self.raise_(st, 'TypeError', 'unorderable')]
        if (num(a) or isinstance(a, Sym)) and (num(b) or isinstance(b, Sym)):
            return [(s, boolv(r)) for s, r in self.compare_order(st, op, a, b)]
        if isinstance(a, Sym) or isinstance(b, Sym):
            return [(s, boolv(r)) for s, r in self.decide(st, (op, a, b))]
        return [self.raise_(st, 'TypeError', 'unorderable')]

    def has_dunder(self, st, v, name):
        return isinstance(v, Ref) and st.obj(v).kind == 'inst' and isinstance(st.obj(v).cls, Ref) and self.class_lookup(st, st.obj(v).cls, name) is not None

    def same(self, st, a, b):
        """identity -> [(st, bool)]"""
        if a == b:
            return [(st, True)]
        if isinstance(b, Const) and b.v is None:
            return self.is_none(st, a)
        if isinstance(a, Const) and a.v is None:
            return self.is_none(st, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.name[0] == 'typeof' and not isinstance(y, Sym):
                v = x.name[1]
                if isinstance(y, ExtV) and y.name.startswith('builtins.'):
                    t = y.name.split('.', 1)[1]
                    if self.ext_exc(y) is not None:
                        return self.typeis(st, v, y)
                    out = []
                    for s, r in self.sym_isinst(st, v, t):
                        if r and t == 'int':
                            for s2, q in self.sym_isinst(s, v, 'bool'):
                                out.extend(self.decide(s2, ('exact', v)) if not q and 'sub' in v.tags else [(s2, not q)])
                        elif r and 'sub' in v.tags:
                            # the value may be an instance of a class derived from the builtin one
                            out.extend(self.decide(s, ('exact', v)))
                        else:
                            out.append((s, r))
                    return out
                return self.typeis(st, v, y)
        if isinstance(a, Sym) and a.name[0] == 'typeof' and isinstance(b, Sym) and b.name[0] != 'typeof':
            return self.typeis(st, a.name[1], b)
        if isinstance(b, Sym) and b.name[0] == 'typeof' and isinstance(a, Sym) and a.name[0] != 'typeof':
            return self.typeis(st, b.name[1], a)
        if isinstance(a, Sym) or isinstance(b, Sym):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Const) and isinstance(x.v, bool) and isinstance(y, Sym):
                    out = []
                    for s, r in self.sym_isinst(st, y, 'bool'):
                        if not r:
                            out.append((s, False))
                        else:
                            out.extend((s2, t == x.v) for s2, t in self.truth(s, y))
                    return out
                if isinstance(x, Const) and x.v is Ellipsis and isinstance(y, Sym) and self.sym_type(st, y) is not None:
                    return [(st, False)]
                if 'fresh' in (y.tags if isinstance(y, Sym) else ()) and not isinstance(x, Sym):
                    return [(st, False)]
            if isinstance(a, Sym) and isinstance(b, Sym) and ('distinct' in a.tags and 'distinct' in b.tags):
                return [(st, False)]
            x, y = sorted((a, b), key=repr)
            for s_ in (x, y):
                pass
            return self.decide(st, ('is', x, y))
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return [(st, False)]
        return [(st, False)]

    def typeis(self, st, v, cls):
        key = ('typeis', v, cls)
        if key in st.facts:
            return [(st, st.facts[key])]
        for k, val in st.facts.items():
            if k[0] == 'typeis' and k[1] == v and val:
                return [(st, False)]
        if st.facts.get(('isinst', v, cls)) is False:
            return [(st, False)]
        res = self.decide(st, key)
        for s, r in res:
            if r:
                s.facts[('isinst', v, cls)] = True
        return res

    def equal(self, st, a, b, fr=None, n=None):
        """value equality -> [(st, bool|Exc)]"""
        if a == b:
            return [(st, True)]
        if isinstance(a, Sym) and isinstance(b, Sym) and a.name[0] == 'id' == b.name[0]:
            return self.same(st, a.name[1], b.name[1])
        if isinstance(a, Const) and isinstance(b, Const):
            return [(st, a.v == b.v)]
        if fr is not None and (self.has_dunder(st, a, '__eq__') or self.has_dunder(st, b, '__eq__')):
            return [(s, r if isinstance(r, Exc) else r.v) for s, r in self.compare(st, '==', a, b, fr, n)]
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if any(isinstance(x, StarV) for x in a.items + b.items):
                return self.decide(st, ('eq',) + tuple(sorted((a, b), key=repr)))
            if len(a.items) != len(b.items):
                return [(st, False)]
            res = [(st, True)]
            for x, y in zip(a.items, b.items):
                res = [q for s, r in res for q in (self.equal(s, x, y, fr, n) if r is True else [(s, r)])]
            return res
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = st.obj(a), st.obj(b)
            if x.kind in ('list', 'set', 'dict') and y.kind == x.kind:
                if self.snap(st, a) == self.snap(st, b):
                    return [(st, True)]
                if x.kind == 'list' and len(x.items) == len(y.items) and not any(isinstance(i, StarV) for i in x.items + y.items):
                    return self.equal(st, TupleV(x.items), TupleV(y.items), fr, n)
                if x.kind == 'set' and not any(isinstance(i, (Sym, StarV)) for i in x.items + y.items):
                    return [(st, set(x.items) == set(y.items))]
                if x.kind == 'list' and not any(isinstance(i, StarV) for i in x.items + y.items):
                    return [(st, False)]
                return self.decide(st, ('eq', Const(repr(self.snap(st, a))), Const(repr(self.snap(st, b)))))
            return [(st, False)]
        if isinstance(a, Sym) or isinstance(b, Sym):
            if not isinstance(a, Sym):
                a, b = b, a
            # a is Sym
            if a.name[0] == 'typeof' or (isinstance(b, Sym) and b.name[0] == 'typeof'):
                return self.same(st, a, b)
            if isinstance(b, Const) and b.v is None:
                return self.is_none(st, a)
            if isinstance(b, Const) and b.v is Ellipsis:
                return self.same(st, a, b)
            ta = self.sym_type(st, a)
            if isinstance(b, Const) and isinstance(b.v, bool):
                if 'bool' in a.tags or st.facts.get(('isbool', a)):
                    return [(s, t == b.v) for s, t in self.truth(st, a)]
                if ta is not None and ta not in ('int', 'float'):
                    return [(st, False)]
            if isinstance(b, Const) and isinstance(b.v, NUM) and not isinstance(b.v, bool):
                if 'bool' in a.tags:
                    if b.v in (0, 1):
                        return [(s, t == bool(b.v)) for s, t in self.truth(st, a)]
                    return [(st, False)]
                if ta in ('int', 'float') or 'rank' in a.tags:
                    return self.compare_order(st, '==', a, b)
                if ta is not None:
                    return [(st, False)]
                if st.facts.get(('none', a)):
                    return [(st, False)]
                return self.compare_order(st, '==', a, b)
            if isinstance(b, Const) and isinstance(b.v, str):
                if ta is not None and ta != 'str' or st.facts.get(('none', a)):
                    return [(st, False)]
                if a.tags & {'callable', 'rank', 'bool'}:
                    return [(st, False)]
                tr = st.facts.get(('truth', a))
                if tr is not None and tr != bool(b.v):
                    return [(st, False)]
                return self.eq_fact(st, a, b)
            if isinstance(b, Sym):
                tb = self.sym_type(st, b)
                num = lambda v, t: t in ('int', 'float') or 'rank' in v.tags
                if num(a, ta) and num(b, tb):
                    return self.compare_order(st, '==', a, b)
                if ta is not None and tb is not None and ta != tb:
                    return [(st, False)]
                return self.eq_fact(st, *sorted((a, b), key=repr))
            if isinstance(b, (TupleV,)):
                if ta is not None and ta != 'tuple':
                    return [(st, False)]
            if isinstance(b, Ref):
                k = st.obj(b).kind
                if k in ('list', 'dict', 'set') and ta is not None and ta != k:
                    return [(st, False)]
            return self.eq_fact(st, a, b)
        return [(st, False)]

    def eq_fact(self, st, a, b):
        key = ('eq', a, b)
        if key in st.facts:
            return [(st, st.facts[key])]
        if isinstance(b, Const):
            for k, v in st.facts.items():
                if k[0] == 'eq' and v and k[1] == a and isinstance(k[2], Const):
                    return [(st, k[2].v == b.v)]
        res = self.decide(st, key)
        for s, r in res:
            if r and isinstance(b, Const) and b.v is not None:
                s.facts.setdefault(('none', a), False)
        return res

    def contains(self, st, cont, item, fr, n):
        """item in cont -> [(st, Const|Exc)]"""
        if isinstance(cont, Const) and isinstance(cont.v, (str, bytes)):
            if isinstance(item, Const):
                try:
                    return [(st, boolv(item.v in cont.v))]
                except TypeError as e:
                    return [self.raise_(st, 'TypeError', str(e))]
            return [(s, boolv(r)) for s, r in self.decide(st, ('in', item, cont))]
        items = None
        if isinstance(cont, TupleV):
            items = cont.items
        elif isinstance(cont, Ref):
            o = st.obj(cont)
            if o.kind in ('list', 'set'):
                items = o.items
            elif o.kind == 'dict':
                return [(s, boolv(v is not None)) for s, v in self.dict_find(st, cont, item, fr, n)]
            elif o.kind in ('gen', 'view'):
                return self.map(self.iter_values(st, cont, fr, n), lambda s, xs: self.contains(s, TupleV(xs), item, fr, n))
            elif o.kind == 'inst' and isinstance(o.cls, Ref):
                f = self.class_lookup(st, o.cls, '__contains__')
                if f is not None:
                    out = []
                    for s, r in self.call(st, BoundV(f, cont), Pack((item,)), fr, n):
                        if isinstance(r, Exc):
                            out.append((s, r))
                        else:
                            out.extend((s2, t if isinstance(t, Exc) else boolv(t)) for s2, t in self.truth(s, r, fr, n))
                    return out
                return self.map(self.iter_values(st, cont, fr, n), lambda s, xs: self.contains(s, TupleV(xs), item, fr, n))
            elif o.kind == 'ext':
                return [(s, boolv(r)) for s, r in self.ext_contains(st, cont, item)]
        if items is not None:
            res = [(st, None)]
            for x in items:
                out = []
                for s, r in res:
                    if r is not None:
                        out.append((s, r))
                        continue
                    if isinstance(x, StarV):
                        for s2, b in self.decide(s, ('in', item, x.src)):
                            out.append((s2, TRUE if b else None))
                        continue
                    for s2, b in self.equal(s, x, item, fr, n):
                        out.append((s2, b if isinstance(b, Exc) else (TRUE if b else None)))
                res = out
            return [(s, FALSE if r is None else r) for s, r in res]
        if isinstance(cont, Sym):
            if st.facts.get(('len', cont)) == 0:
                return [(st, FALSE)]
            return [(s, boolv(r)) for s, r in self.decide(st, ('in', item, cont))]
        if isinstance(cont, (ExtV, MethV)):
            return [(s, boolv(r)) for s, r in self.decide(st, ('in', item, cont))]
        return [self.raise_(st, 'TypeError', 'not iterable')]

    # ------------------------------------------------------------ misc expressions
    def e_IfExp(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Exc):
                out.append((s, b))
            else:
                out.extend(self.ev(n.body if b else n.orelse, s, fr))
        return out

    def e_NamedExpr(self, n, st, fr):
        return self.map(self.ev(n.value, st, fr), lambda s, v: (self.store_name(n.target.id, v, s, fr), [(s, v)])[1])

    def e_Lambda(self, n, st, fr):
        return self.make_function(n, st, fr)

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Await(self, n, st, fr):
        return self.map(self.ev(n.value, st, fr), lambda s, v: self.await_(s, v, fr, n))

    def e_Yield(self, n, st, fr):
        out = []
        for s, o in self.do_yield(n, st, fr, n):
            out.append((s, Exc(o[1], o[2]) if o is not None and o[0] == 'exc' else NONE))
        return out

    e_YieldFrom = e_Yield

    def e_Slice(self, n, st, fr):
        nodes = [x if x is not None else ast.copy_location(ast.Constant(None), n) for x in (n.lower, n.upper, n.step)]
        return self.map(self.evs(nodes, st, fr), lambda s, t: [(s, SliceV(*t.items))])

    def await_(self, st, v, fr, n):
        if isinstance(v, CoroV):
            if isinstance(v.func, Sym):
                return self.opaque_call(st, v.func, v.pack, fr, n, awaited=True)
            return self.run_function(st, v.func, v.pack, fr, n)
        if isinstance(v, Sym):
            self.event(st, fr, n, 'await', value=v)
            return [(st, Sym(('await', v), v.tags & {'user'}))]
        if isinstance(v, Ref) and self.has_dunder(st, v, '__await__'):
            f = self.class_lookup(st, st.obj(v).cls, '__await__')
            return self.map(self.call(st, BoundV(f, v), Pack(), fr, n), lambda s, g: [(s, NONE)])
        if isinstance(v, Ref) and st.obj(v).kind == 'ext':
            return [(st, Sym(('await', v)))]
        return [self.raise_(st, 'TypeError', 'not awaitable')]

    # comprehensions
    def comp(self, n, st, fr, leaf):
        """run leaf(st, frame) for every element"""
        from .interp import Frame
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        env = self.alloc(st, Obj('env', meta={'parent': fr.env if st.obj(fr.env).kind != 'module' else None, 'locals': names, 'comp': names, 'globals': (), 'nonlocals': ()}))
        fr2 = Frame(env, fr.module, fr.func, fr.cls, fr.stack, fr.file)
        fr2.yields, fr2.cm_body = fr.yields, fr.cm_body
        outer_class = fr.classenv

        def gen(i, s):
            """-> [(st, NONE|Exc|'stop')]"""
            if i == len(n.generators):
                return leaf(s, fr2)
            g = n.generators[i]
            out = []
            for s2, it in self.ev(g.iter, s, fr if i == 0 else fr2):
                if isinstance(it, Exc):
                    out.append((s2, it))
                    continue
                self.iter_event(s2, it, fr, n)
                for s3, items in self.iter_values(s2, it, fr, n):
                    if isinstance(items, Exc):
                        out.append((s3, items))
                        continue
                    cur = [s3]
                    for x in items:
                        nxt = []
                        for c in cur:
                            for s4, r in self.assign(g.target, x, c, fr2):
                                if isinstance(r, Exc):
                                    out.append((s4, r))
                                    continue
                                conds = [(s4, True)]
                                for t in g.ifs:
                                    c2 = []
                                    for s5, ok in conds:
                                        if ok is not True:
                                            c2.append((s5, ok))
                                        else:
                                            c2.extend(self.cond(t, s5, fr2))
                                    conds = c2
                                for s5, ok in conds:
                                    if isinstance(ok, Exc):
                                        out.append((s5, ok))
                                    elif not ok:
                                        nxt.append(s5)
                                    else:
                                        for s6, r6 in gen(i + 1, s5):
                                            if isinstance(r6, Exc) or r6 == 'stop':
                                                out.append((s6, r6))
                                            else:
                                                nxt.append(s6)
                        cur = nxt
                    out.extend((c, NONE) for c in cur)
            return out
        return gen(0, st)

    def e_ListComp(self, n, st, fr, kind='list'):
        r = self.alloc(st, Obj(kind, items=[]))

        def leaf(s, fr2):
            def k(s2, v):
                m = s2.mut(r)
                if kind != 'set' or v not in m.items:
                    m.items.append(v)
                return [(s2, NONE)]
            if isinstance(n.elt, ast.Starred):
                return self.map(self.ev(n.elt.value, s, fr2), k)
            return self.map(self.ev(n.elt, s, fr2), k)
        return [(s, v if isinstance(v, Exc) else r) for s, v in self.comp(n, st, fr, leaf)]

    def e_SetComp(self, n, st, fr):
        return self.e_ListComp(n, st, fr, 'set')

    def e_GeneratorExp(self, n, st, fr):
        return self.e_ListComp(n, st, fr, 'list')

    def e_DictComp(self, n, st, fr):
        r = self.alloc(st, Obj('dict', items={}))

        def leaf(s, fr2):
            return self.map(self.evs([n.key, n.value], s, fr2), lambda s2, p: self.dict_set(s2, r, p.items[0], p.items[1], fr2, n))
        return [(s, v if isinstance(v, Exc) else r) for s, v in self.comp(n, st, fr, leaf)]

    def any_all(self, n, gen, isany, st, fr):
        def leaf(s, fr2):
            out = []
            for s2, v in self.ev(gen.elt, s, fr2):
                if isinstance(v, Exc):
                    out.append((s2, v))
                    continue
                for s3, b in self.truth(s2, v, fr2, n):
                    if isinstance(b, Exc):
                        out.append((s3, b))
                    else:
                        out.append((s3, 'stop' if b == isany else NONE))
            return out
        return [(s, v if isinstance(v, Exc) else boolv(isany if v == 'stop' else not isany)) for s, v in self.comp(gen, st, fr, leaf)]

    def next_gen(self, n, gen, default, st, fr):
        box = self.alloc(st, Obj('list', items=[]))

        def leaf(s, fr2):
            def k(s2, v):
                s2.mut(box).items.append(v)
                return [(s2, 'stop')]
            return self.map(self.ev(gen.elt, s, fr2), k)
        out = []
        for s, v in self.comp(gen, st, fr, leaf):
            if isinstance(v, Exc):
                out.append((s, v))
            elif v == 'stop':
                out.append((s, s.obj(box).items[0]))
            elif default is None:
                out.append(self.raise_(s, 'StopIteration'))
            else:
                out.extend(self.ev(default, s, fr))
        return out

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, fr):
        f = n.func
        if isinstance(f, ast.Name) and f.id in ('any', 'all', 'next') and n.args and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            fv = self.load_name(f.id, st, fr, n)
            if len(fv) == 1 and fv[0][1] == ExtV('builtins.' + f.id):
                if f.id == 'next':
                    return self.next_gen(n, n.args[0], n.args[1] if len(n.args) > 1 else None, st, fr)
                return self.any_all(n, n.args[0], f.id == 'any', st, fr)
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args and fr.cls is not None:
            env = fr.env
            while env is not None and st.obj(env).meta.get('comp'):
                env = st.obj(env).meta.get('parent')
            first = st.obj(env).meta.get('first')
            if first is not None:
                return [(st, SuperV(fr.cls, first))]
        if isinstance(f, ast.Name) and f.id == 'locals' and not n.args:
            return [(st, self.alloc(st, Obj('dict', items={Const(k): v for k, v in st.obj(fr.env).attrs.items()})))]

        def k(s, callee):
            return self.map(self.eval_args(n, s, fr), lambda s2, p: self.call(s2, callee, p, fr, n))
        return self.map(self.ev(f, st, fr), k)

    def eval_args(self, n, st, fr):
        """-> [(st, Pack|Exc)]"""
        out = []
        for s, t in self.evs(n.args, st, fr):
            if isinstance(t, Exc):
                out.append((s, t))
                continue
            res = [(s, Pack(t.items))]
            for kw in n.keywords:
                nres = []
                for s2, p in res:
                    if isinstance(p, Exc):
                        nres.append((s2, p))
                        continue
                    for s3, v in self.ev(kw.value, s2, fr):
                        if isinstance(v, Exc):
                            nres.append((s3, v))
                        elif kw.arg is not None:
                            if kw.arg in p.kw:
                                nres.append(self.raise_(s3, 'TypeError', 'multiple values for ' + kw.arg))
                            else:
                                nres.append((s3, Pack(p.pos, {**p.kw, kw.arg: v}, p.dstar)))
                        else:
                            nres.append(self.merge_dstar(s3, p, v))
                res = nres
            out.extend(res)
        return out

    def merge_dstar(self, st, p, v):
        if isinstance(v, Ref) and st.obj(v).kind == 'dict':
            o = st.obj(v)
            kw = dict(p.kw)
            for k, x in o.items.items():
                name = k.v if isinstance(k, Const) else k
                if name in kw:
                    return self.raise_(st, 'TypeError', 'multiple values for keyword argument')
                kw[name] = x
            rest = o.meta.get('rest')
            return (st, Pack(p.pos, kw, p.dstar + ((rest,) if rest is not None else ())))
        return (st, Pack(p.pos, p.kw, p.dstar + (v,)))

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, n, st, fr):
        return self.map(self.ev(n.value, st, fr), lambda s, v: self.getattr(s, v, n.attr, fr, n))

    def getattr(self, st, v, name, fr, n, raw=False):
        if isinstance(v, Ref):
            o = st.obj(v)
            k = o.kind
            if k == 'inst':
                return self.inst_getattr(st, v, o, name, fr, n, raw)
            if k == 'class':
                return self.class_getattr(st, v, o, name, fr, n)
            if k == 'module':
                if name in o.attrs:
                    return [(st, self.policy.load(self, st, v, name, o.attrs[name]))]
                full = o.meta['name'] + '.' + name
                if full in self.modules:
                    return [(st, self.modules[full])]
                return [self.raise_(st, 'AttributeError', name)]
            if k == 'func':
                if name in o.attrs:
                    return [(st, o.attrs[name])]
                if name == '__name__':
                    return [(st, Const(o.meta['name']))]
                if name == '__qualname__':
                    return [(st, Const(o.meta['qual']))]
                if name == '__module__':
                    return [(st, Const(o.meta['modname']))]
                if name == '__doc__':
                    return [(st, Sym(('doc', v), {'str'}))]
                if name == '__call__':
                    return [(st, v)]
                if name == '__dict__':
                    return [(st, self.alloc(st, Obj('dict', items={Const(a): x for a, x in o.attrs.items()}, meta={"dict_of": v})))]
                if name == '__get__':
                    return [(st, MethV(v, '__get__'))]
                return [self.raise_(st, 'AttributeError', name)]
            if name == 'format' and o.meta.get('stack'):
                return [(st, MethV(v, name))]
            if k in ('list', 'dict', 'set', 'view', 'lock', 'gen', 'ctxvar', 'ext', 'gencm', 'suppress', 'partial'):
                return self.builtin_getattr(st, v, o, name, fr, n)
            return [self.raise_(st, 'AttributeError', name)]
        if isinstance(v, Sym):
            return self.sym_getattr(st, v, name, fr, n)
        if isinstance(v, ExtV):
            return self.ext_getattr(st, v, name, fr, n)
        if isinstance(v, BoundV):
            if name == '__self__':
                return [(st, v.self_)]
            if name == '__func__':
                return [(st, v.func)]
            return self.getattr(st, v.func, name, fr, n)
        if isinstance(v, SuperV):
            return self.super_getattr(st, v, name, fr, n)
        if isinstance(v, WrapV):
            if name in ('__func__', 'fget', '__wrapped__'):
                return [(st, v.func)]
            if v.kind == 'property' and name in ('setter', 'getter', 'deleter'):
                return [(st, MethV(v, name))]
            return [self.raise_(st, 'AttributeError', name)]
        if isinstance(v, MethV):
            if name in ('__name__', '__qualname__'):
                return [(st, Const(v.name))]
            if name == '__self__':
                return [(st, v.base)]
            return [(st, Sym(('attr', v, name)))]
        if isinstance(v, Const):
            if name == '__class__':
                return [(st, self.typeof(st, v))]
            if hasattr(v.v, name):
                if callable(getattr(v.v, name)):
                    return [(st, MethV(v, name))]
                a = getattr(v.v, name)
                return [(st, Const(a))]
            return [self.raise_(st, 'AttributeError', name)]
        if isinstance(v, TupleV):
            if name == '__class__':
                return [(st, ExtV('builtins.tuple'))]
            if hasattr(tuple, name):
                return [(st, MethV(v, name))]
            return [self.raise_(st, 'AttributeError', name)]
        if isinstance(v, CoroV):
            return [(st, MethV(v, name))]
        return [(st, Sym(('attr', v, name)))]

    def sym_getattr(self, st, v, name, fr, n):
        if (v, name) in st.symattrs:
            return [(st, st.symattrs[(v, name)])]
        if name == '__class__':
            return [(st, self.typeof(st, v))]
        r = self.policy_attr(st, v, name)
        if r is not None:
            return [(st, r)]
        t = self.sym_type(st, v)
        if t == 'NoneType' or st.facts.get(('none', v)):
            return [self.raise_(st, 'AttributeError', name)]
        term = Sym(('attr', v, name), self.attr_tags(v, name))
        from .interp import PYT
        if t in PYT and t not in ('NoneType',):
            if hasattr(PYT[t], name):
                return [(st, MethV(v, name))]
            return [self.raise_(st, 'AttributeError', name)]
        if t == 'exc' and name == 'with_traceback':
            return [(st, MethV(v, name))]
        if t == 'exc' and name == '__traceback__':
            return [(st, self.get_tb(st, v) if self.policy.tracebacks else Sym(('tb', v), {'object'}))]
        if v.name[0] == 'tb' and isinstance(v.name[-1], tuple) and name == 'tb_next':
            return [(st, Sym(('tb', v.name[1], v.name[2][1:]), {'object', 'notnone'}) if v.name[2][1:] else NONE)]
        if t == 'exc' and name in ('args', '__traceback__', '__cause__', '__context__', 'with_traceback', '__class__'):
            return [(st, term)]
        if v.name[0] == 'typeof' and name == '__name__':
            return [(st, Sym(('typename', v.name[1]), {'str'}))]
        if 'user' in v.tags and 'attrs_ok' not in v.tags and name not in ('__class__', '__dict__', '__doc__'):
            out = []
            for s, ok in self.decide(st, ('hasattr', v, name)):
                if ok:
                    out.append((s, term))
                else:
                    out.append(self.raise_(s, 'AttributeError', name))
            return out
        if 'maynone' in v.tags and ('none', v) not in st.facts:
            out = []
            for s, isn in self.is_none(st, v):
                out.append(self.raise_(s, 'AttributeError', name) if isn else (s, term))
            return out
        return [(st, term)]

    def policy_attr(self, st, v, name):
        f = getattr(self.policy, 'attr', None)
        return f(self, st, v, name) if f else None

    def attr_tags(self, v, name):
        tags = set()
        if name in ('__name__', '__qualname__', '__module__'):
            tags.add('str')
        if 'user' in v.tags:
            tags.add('user')
        return tags

    def inst_getattr(self, st, v, o, name, fr, n, raw=False):
        if name == '__class__':
            return [(st, o.cls)]
        if name == '__dict__':
            return [(st, self.alloc(st, Obj('dict', items={Const(a): x for a, x in o.attrs.items()}, meta={'dict_of': v})))]
        if isinstance(o.cls, Ref) and not raw:
            g = self.class_lookup(st, o.cls, '__getattribute__')
            if g is not None:
                return self.call(st, BoundV(g, v), Pack((Const(name),)), fr, n)
        ca = self.class_lookup(st, o.cls, name) if isinstance(o.cls, Ref) else None
        if isinstance(ca, WrapV) and ca.kind == 'property':
            return self.call(st, ca.func, Pack((v,)), fr, n)
        if ca is not None and isinstance(ca, Ref) and st.obj(ca).kind == 'inst' and isinstance(st.obj(ca).cls, Ref) and self.class_lookup(st, st.obj(ca).cls, '__get__') is not None:
            g = self.class_lookup(st, st.obj(ca).cls, '__get__')
            return self.call(st, BoundV(g, ca), Pack((v, o.cls)), fr, n)
        if name in o.attrs:
            return [(st, self.policy.load(self, st, v, name, o.attrs[name]))]
        if ca is not None:
            return [(st, self.bind(st, ca, v, o.cls))]
        if isinstance(o.cls, Ref):
            g = self.class_lookup(st, o.cls, '__getattr__')
            if g is not None:
                return self.call(st, BoundV(g, v), Pack((Const(name),)), fr, n)
        if self.is_exc_class(st, o.cls) and name == 'with_traceback':
            return [(st, MethV(v, name))]
        if self.is_exc_class(st, o.cls) and name == '__traceback__' and self.policy.tracebacks:
            return [(st, self.get_tb(st, v))]
        if self.is_exc_class(st, o.cls) and name in ('args', '__traceback__', '__cause__', '__context__', 'with_traceback', 'add_note'):
            return [(st, Sym(('attr', v, name)))]
        exts = self.ext_bases(st, o.cls)
        if exts:
            # attribute provided by a standard library base class
            e = exts[0].name
            import importlib
            mod, _, cn = e.rpartition('.')
            try:
                c = getattr(importlib.import_module(mod), cn)
                if hasattr(c, name):
                    return [(st, MethV(v, name))]
            except Exception:
                return [(st, Sym(('attr', v, name)))]
        if name.startswith('__') and name.endswith('__') and hasattr(object, name):
            return [(st, MethV(v, name))]
        return [self.raise_(st, 'AttributeError', name)]

    def bind(self, st, ca, self_, cls):
        if isinstance(ca, WrapV):
            if ca.kind == 'static':
                return ca.func
            if ca.kind == 'class':
                return BoundV(ca.func, cls)
            return ca
        if isinstance(ca, Ref) and st.obj(ca).kind in ('func', 'gencmf'):
            return BoundV(ca, self_)
        return ca

    def class_getattr(self, st, v, o, name, fr, n):
        if name == '__dict__':
            return [(st, self.alloc(st, Obj('dict', items={Const(a): x for a, x in o.attrs.items()})))]
        if name in ('__name__', '__qualname__', '__module__'):
            return [(st, o.attrs[name])]
        if name == '__mro__':
            return [(st, TupleV(self.mro(st, v)))]
        if name == '__bases__':
            return [(st, TupleV(o.meta['bases']))]
        if name == '__doc__':
            return [(st, Sym(('doc', v), {'str'}))]
        if name == '__class__':
            return [(st, ExtV('builtins.type'))]
        ca = self.class_lookup(st, v, name)
        if ca is not None:
            if isinstance(ca, WrapV):
                if ca.kind == 'static':
                    return [(st, ca.func)]
                if ca.kind == 'class':
                    return [(st, BoundV(ca.func, v))]
                return [(st, ca)]
            return [(st, self.policy.load(self, st, v, name, ca))]
        for e in self.ext_bases(st, v):
            return [(st, ExtV(e.name + '.' + name))]
        if hasattr(object, name) or hasattr(type, name):
            return [(st, ExtV('builtins.object.' + name))]
        return [self.raise_(st, 'AttributeError', name)]

    def super_getattr(self, st, v, name, fr, n):
        self_ = v.self_
        if isinstance(self_, Ref) and st.obj(self_).kind == 'class':
            cls = self_
        elif isinstance(self_, Ref):
            cls = st.obj(self_).cls
        else:
            cls = v.cls
        mro = self.mro(st, cls)
        rest = mro[mro.index(v.cls) + 1:] if v.cls in mro else mro[1:]
        for c in rest:
            if isinstance(c, Ref):
                a = st.obj(c).attrs
                if name in a:
                    ca = a[name]
                    if name == '__new__':
                        return [(st, ca.func if isinstance(ca, WrapV) else ca)]
                    if isinstance(ca, WrapV) and ca.kind == 'property':
                        return self.call(st, ca.func, Pack((self_,)), fr, n)
                    return [(st, self.bind(st, ca, self_, cls))]
            elif isinstance(c, ExtV) and c.name != 'builtins.object':
                if name == '__new__':
                    return [(st, ExtV(c.name + '.' + name))]
                return [(st, BoundV(ExtV(c.name + '.' + name), self_))]
        if name == '__new__':
            return [(st, ExtV('builtins.object.__new__'))]
        if hasattr(object, name):
            return [(st, BoundV(ExtV('builtins.object.' + name), self_))]
        return [self.raise_(st, 'AttributeError', name)]

    def ext_getattr(self, st, v, name, fr, n):
        key = (v.name, name)
        ov = st.counters.get('extattrs')
        if ov and key in ov:
            x = ov[key]
            if x is None:
                return [self.raise_(st, 'AttributeError', name)]
            return [(st, x)]
        if name == '__name__':
            return [(st, Const(v.name.split('.')[-1]))]
        if name == '__module__':
            return [(st, Const(v.name.rpartition('.')[0]))]
        if name == '__dict__':
            return [(st, Sym(('attr', v, name), {'dict'}))]
        real = self.real_ext(v.name)
        if real is not None and not hasattr(real, name) and name not in ('__wrapped__',):
            return [self.raise_(st, 'AttributeError', name)]
        if real is not None:
            x = getattr(real, name, None)
            if isinstance(x, (int, str, float, bool, bytes)) and not isinstance(x, type):
                if (v.name, name) not in (('sys', 'argv'),):
                    return [(st, Const(x))]
        return [(st, self.ext_attr(v.name, name))]

    def real_ext(self, dotted):
        """stdlib object by dotted name (only the standard library is imported)"""
        import importlib
        if dotted in self.ext_cache:
            return self.ext_cache[dotted]
        parts = dotted.split('.')
        obj = None
        if dotted == 'builtins.NoneType':
            self.ext_cache[dotted] = type(None)
            return type(None)
        if parts[0] in self.std and parts[0] not in ('antigravity', 'this', 'idlelib', 'test'):
            for i in range(len(parts), 0, -1):
                try:
                    obj = importlib.import_module('.'.join(parts[:i]))
                except Exception:
                    continue
                for p in parts[i:]:
                    obj = getattr(obj, p, None)
                    if obj is None:
                        break
                break
        self.ext_cache[dotted] = obj
        return obj

    def setattr(self, st, v, name, val, fr, n, raw=False):
        if name == '__traceback__' and self.policy.tracebacks and (isinstance(v, Sym) and 'exc' in v.tags or isinstance(v, Ref) and st.obj(v).kind == 'inst' and self.is_exc_class(st, st.obj(v).cls)):
            self.event(st, fr, n, 'store', obj=v, attr=name, value=val)
            self.set_tb(st, v, val)
            return [(st, NONE)]
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == 'inst':
                if isinstance(o.cls, Ref) and not raw:
                    f = self.class_lookup(st, o.cls, '__setattr__')
                    if f is not None:
                        return self.call(st, BoundV(f, v), Pack((Const(name), val)), fr, n)
                    ca = self.class_lookup(st, o.cls, name)
                    if isinstance(ca, WrapV) and ca.kind == 'property':
                        fs = st.counters.get(('setter', ca.func))
                        if fs is not None:
                            return self.call(st, fs, Pack((v, val)), fr, n)
                        return [self.raise_(st, 'AttributeError', name)]
                self.event(st, fr, n, 'store', obj=v, attr=name, value=val)
                st.mut(v).attrs[name] = val
                return [(st, NONE)]
            if o.kind in ('class', 'module', 'func'):
                self.event(st, fr, n, 'store', obj=v, attr=name, value=val)
                st.mut(v).attrs[name] = val
                return [(st, NONE)]
            if o.kind == 'ext':
                self.event(st, fr, n, 'store', obj=v, attr=name, value=val)
                st.mut(v).attrs[name] = val
                return [(st, NONE)]
            return [self.raise_(st, 'AttributeError', name)]
        if isinstance(v, Sym):
            out = []
            if 'user' in v.tags and self.policy.user_setattr_raises and ('setok', v) not in st.facts:
                f = st.fork()
                st.facts[('setok', v)] = True
                f.facts[('setok', v)] = False
                out.append((f, Exc(Sym(('exc', 'setattr', v), {'exc', 'Exception', 'user'}), self.loc(fr, n))))
            elif st.facts.get(('setok', v)) is False:
                return [(st, Exc(Sym(('exc', 'setattr', v), {'exc', 'Exception', 'user'}), self.loc(fr, n)))]
            self.event(st, fr, n, 'store', obj=v, attr=name, value=val)
            st.symattrs[(v, name)] = val
            st.facts[('hasattr', v, name)] = True
            return [(st, NONE)] + out
        if isinstance(v, ExtV):
            self.event(st, fr, n, 'store', obj=v, attr=name, value=val)
            d = dict(st.counters.get('extattrs') or {})
            d[(v.name, name)] = val
            st.counters['extattrs'] = d
            if v.name == 'builtins':
                b = dict(st.counters.get('builtins') or {})
                b[name] = val
                st.counters['builtins'] = b
            return [(st, NONE)]
        if isinstance(v, BoundV):
            return [self.raise_(st, 'AttributeError', name)]
        return [self.raise_(st, 'AttributeError', name)]

    def delattr(self, st, v, name, fr, n):
        if isinstance(v, Ref):
            if name in st.obj(v).attrs:
                self.event(st, fr, n, 'delattr', obj=v, attr=name)
                del st.mut(v).attrs[name]
                return [(st, NONE)]
            return [self.raise_(st, 'AttributeError', name)]
        if isinstance(v, ExtV):
            self.event(st, fr, n, 'delattr', obj=v, attr=name)
            d = dict(st.counters.get('extattrs') or {})
            out = []
            if (v.name, name) in d:
                if d[(v.name, name)] is None:
                    return [self.raise_(st, 'AttributeError', name)]
                d[(v.name, name)] = None
                st.counters['extattrs'] = d
                return [(st, NONE)]
            for s, ok in self.decide(st, ('hasattr', v, name)):
                out.append((s, NONE) if ok else self.raise_(s, 'AttributeError', name))
            return out
        if isinstance(v, Sym):
            self.event(st, fr, n, 'delattr', obj=v, attr=name)
            if (v, name) in st.symattrs:
                del st.symattrs[(v, name)]
            st.facts[('hasattr', v, name)] = False
            return [(st, NONE)]
        return [self.raise_(st, 'AttributeError', name)]

    def hasattr_(self, st, v, name, fr, n):
        """-> [(st, bool|Exc)]"""
        if isinstance(v, Sym):
            if (v, name) in st.symattrs:
                return [(st, True)]
            k = st.facts.get(('hasattr', v, name))
            if k is not None:
                return [(st, k)]
            t = self.sym_type(st, v)
            from .interp import PYT
            if t in PYT:
                return [(st, hasattr(PYT[t], name))]
            if st.facts.get(('none', v)):
                return [(st, hasattr(None, name))]
            if self.policy_attr(st, v, name) is not None:
                return [(st, True)]
            return self.decide(st, ('hasattr', v, name))
        out = []
        for s, r in self.getattr(st, v, name, fr, n):
            if isinstance(r, Exc):
                for s2, m in self.exc_match(s, r.value, ExtV('builtins.AttributeError')):
                    out.append((s2, False if m else r))
            else:
                out.append((s, True))
        return out

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, n, st, fr):
        return self.map(self.evs([n.value, n.slice], st, fr), lambda s, p: self.getitem(s, p.items[0], p.items[1], fr, n))

    def norm_index(self, k):
        return k.v if isinstance(k, Const) and isinstance(k.v, int) else None

    def getitem(self, st, v, k, fr, n):
        if isinstance(v, ExtV) or (isinstance(v, Ref) and st.obj(v).kind == 'class'):
            if isinstance(v, Ref):
                f = self.class_lookup(st, v, '__class_getitem__')
                if f is not None:
                    return self.call(st, self.bind(st, f, v, v), Pack((k,)), fr, n)
            return [(st, v)]     # typing generics
        if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
            if isinstance(k, Const):
                try:
                    return [(st, Const(v.v[k.v]))]
                except Exception as e:
                    return [self.raise_(st, type(e).__name__, str(e))]
            if isinstance(k, SliceV) and all(isinstance(x, Const) for x in (k.a, k.b, k.c)):
                return [(st, Const(v.v[k.a.v:k.b.v:k.c.v]))]
            return [(st, Sym(('item', v, k), {'str'}))]
        items = None
        if isinstance(v, TupleV):
            items = list(v.items)
        elif isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == 'list':
                items = list(o.items)
            elif o.kind == 'dict':
                out = []
                for s, x in self.dict_find(st, v, k, fr, n):
                    if x is not None:
                        out.append((s, x))
                    else:
                        df = o.meta.get('factory')
                        if df is not None:
                            out.extend(self.map(self.call(s, df, Pack(), fr, n), lambda s2, y: self.map(self.dict_set(s2, v, k, y, fr, n), lambda s3, _: [(s3, y)])))
                        else:
                            out.append(self.raise_(s, 'KeyError', k))
                return out
            elif o.kind == 'inst':
                return self.map(self.special(st, v, '__getitem__', fr, n), lambda s, f: self.call(s, f, Pack((k,)), fr, n))
            elif o.kind == 'ext':
                return self.ext_getitem(st, v, k, fr, n)
        if items is not None:
            return self.seq_getitem(st, v, items, k, fr, n)
        if isinstance(v, Sym):
            if ('fixed', v, k) in st.facts:
                return [(st, st.facts[('fixed', v, k)])]
            t = self.sym_type(st, v)
            if st.facts.get(('none', v)) or t in ('NoneType', 'int', 'float'):
                return [self.raise_(st, 'TypeError', 'not subscriptable')]
            if isinstance(k, SliceV):
                return [(st, Sym(('item', v, k), v.tags & {'str', 'list', 'tuple', 'user'}))]
            i = self.norm_index(k)
            if i is not None and t != 'dict':
                out = []
                if t == 'str':
                    return [(st, Sym(('item', v, k), {'str'}))]
                for s, ln in self.sym_len(st, v):
                    if -ln <= i < ln:
                        out.append((s, self.elem(s, v, i if i >= 0 else ln + i)))
                    else:
                        out.append(self.raise_(s, 'IndexError'))
                return out
            if t == 'dict':
                out = []
                for s, b in self.decide(st, ('in', k, v)):
                    out.append((s, Sym(('item', v, k), v.tags & {'user'})) if b else self.raise_(s, 'KeyError', k))
                return out
            return self.opaque_call(st, Sym(('attr', v, '__getitem__'), v.tags & {'user'}), Pack((k,)), fr, n)
        return [self.raise_(st, 'TypeError', 'not subscriptable')]

    def seq_getitem(self, st, v, items, k, fr, n):
        star = any(isinstance(x, StarV) for x in items)
        if isinstance(k, SliceV):
            if not star and all(isinstance(x, Const) for x in (k.a, k.b, k.c)):
                sub = items[k.a.v:k.b.v:k.c.v]
                return [(st, TupleV(sub) if isinstance(v, TupleV) else self.alloc(st, Obj('list', items=sub)))]
            if star and isinstance(k.c, Const) and k.c.v is None:
                a, b = k.a, k.b
                a0 = 0 if isinstance(a, Const) and a.v is None else self.norm_index(a)
                if a0 == 0 and isinstance(b, Const) and b.v is None:
                    return [(st, v if isinstance(v, TupleV) else self.alloc(st, Obj('list', items=items)))]
                if a0 is not None and a0 >= 0 and isinstance(b, Const) and b.v is None and not any(isinstance(x, StarV) for x in items[:a0]):
                    sub = items[a0:]
                    return [(st, TupleV(sub) if isinstance(v, TupleV) else self.alloc(st, Obj('list', items=sub)))]
                b0 = self.norm_index(b)
                if a0 == 0 and b0 is not None and b0 < 0 and not any(isinstance(x, StarV) for x in items[b0:]):
                    sub = items[:b0]
                    return [(st, TupleV(sub) if isinstance(v, TupleV) else self.alloc(st, Obj('list', items=sub)))]
                return self.map(self.concrete(st, items), lambda s, xs: self.seq_getitem(s, v, xs, k, fr, n))
            return [(st, Sym(('slice', self.snap(st, v), k), {'list'}))]
        i = self.norm_index(k)
        if i is None:
            if isinstance(k, Const):
                return [self.raise_(st, 'TypeError', 'indices')]
            return [(st, Sym(('item', self.snap(st, v), k)))]
        if star:
            if i >= 0 and not any(isinstance(x, StarV) for x in items[:i + 1]) and i < len(items):
                return [(st, items[i])]
            if i < 0 and not any(isinstance(x, StarV) for x in items[i:]) and -i <= len(items):
                return [(st, items[i])]
            return self.map(self.concrete(st, items), lambda s, xs: self.seq_getitem(s, v, xs, k, fr, n))
        try:
            return [(st, items[i])]
        except IndexError:
            return [self.raise_(st, 'IndexError')]

    def setitem(self, st, v, k, val, fr, n):
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == 'dict':
                return self.dict_set(st, v, k, val, fr, n)
            if o.kind == 'list':
                i = self.norm_index(k)
                self.event(st, fr, n, 'mutate', obj=v, op='setitem', key=k, value=val)
                if i is not None and not any(isinstance(x, StarV) for x in o.items):
                    if -len(o.items) <= i < len(o.items):
                        st.mut(v).items[i] = val
                        return [(st, NONE)]
                    return [self.raise_(st, 'IndexError')]
                if isinstance(k, SliceV) and k == SliceV(NONE, NONE, NONE):
                    def kk(s, xs):
                        s.mut(v).items[:] = xs
                        return [(s, NONE)]
                    return self.map(self.expand(st, val, fr, n), kk)
                return [(st, NONE)]
            if o.kind == 'inst':
                return self.map(self.special(st, v, '__setitem__', fr, n), lambda s, f: self.map(self.call(s, f, Pack((k, val)), fr, n), lambda s2, _: [(s2, NONE)]))
            if o.kind == 'ext':
                return self.ext_setitem(st, v, k, val, fr, n)
        if isinstance(v, Sym):
            self.event(st, fr, n, 'mutate', obj=v, op='setitem', key=k, value=val)
            return [(st, NONE)]
        if isinstance(v, ExtV):
            self.event(st, fr, n, 'mutate', obj=v, op='setitem', key=k, value=val)
            return [(st, NONE)]
        return [self.raise_(st, 'TypeError', 'item assignment')]

    def delitem(self, st, v, k, fr, n):
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == 'dict':
                out = []
                for s, x in self.dict_find(st, v, k, fr, n):
                    if x is None:
                        out.append(self.raise_(s, 'KeyError', k))
                    else:
                        self.event(s, fr, n, 'mutate', obj=v, op='delitem', key=k)
                        self.dict_remove(s, v, k)
                        out.append((s, NONE))
                return out
            if o.kind == 'list':
                i = self.norm_index(k)
                self.event(st, fr, n, 'mutate', obj=v, op='delitem', key=k)
                if i is not None:
                    if -len(o.items) <= i < len(o.items):
                        del st.mut(v).items[i]
                        return [(st, NONE)]
                    return [self.raise_(st, 'IndexError')]
                if isinstance(k, SliceV) and all(isinstance(x, Const) for x in (k.a, k.b, k.c)):
                    del st.mut(v).items[k.a.v:k.b.v:k.c.v]
                return [(st, NONE)]
            if o.kind == 'inst':
                return self.map(self.special(st, v, '__delitem__', fr, n), lambda s, f: self.map(self.call(s, f, Pack((k,)), fr, n), lambda s2, _: [(s2, NONE)]))
            if o.kind == 'ext':
                self.event(st, fr, n, 'mutate', obj=v, op='delitem', key=k)
                return [(st, NONE)]
        if isinstance(v, Sym):
            self.event(st, fr, n, 'mutate', obj=v, op='delitem', key=k)
            return [(st, NONE)]
        return [self.raise_(st, 'TypeError', 'item deletion')]

    def special(self, st, v, name, fr, n):
        """special method lookup on the type"""
        o = st.obj(v)
        if isinstance(o.cls, Ref):
            f = self.class_lookup(st, o.cls, name)
            if f is not None:
                return [(st, self.bind(st, f, v, o.cls))]
            for e in self.ext_bases(st, o.cls):
                if not self.ext_exc(e):
                    return [(st, MethV(v, name))]
        return [self.raise_(st, 'TypeError', name)]

    # ---- dictionaries
    def dict_find(self, st, d, k, fr, n):
        """-> [(st, value|None)]"""
        o = st.obj(d)
        if k in o.items:
            return [(st, o.items[k])]
        res = [(st, None)]
        done = []
        symkey = isinstance(k, Sym) or (isinstance(k, TupleV) and any(isinstance(x, Sym) for x in k.items))
        for kk, vv in list(o.items.items()):
            if not (symkey or isinstance(kk, Sym) or (isinstance(kk, TupleV) and any(isinstance(x, Sym) for x in kk.items))):
                if isinstance(kk, Const) and isinstance(k, Const) and kk.v == k.v:
                    done.append((res[0][0], vv))
                    return done
                continue
            nxt = []
            for s, _ in res:
                for s2, b in self.equal(s, kk, k, fr, n):
                    if b is True:
                        done.append((s2, vv))
                    else:
                        nxt.append((s2, None))
            res = nxt
        rest = o.meta.get('rest')
        if rest is not None and (not o.meta.get('gone') or k not in o.meta['gone']):
            nxt = []
            for s, _ in res:
                if s.facts.get(('len', rest)) == 0:
                    nxt.append((s, None))
                    continue
                for s2, b in self.decide(s, ('in', k, rest)):
                    nxt.append((s2, self.rest_item(s2, rest, k) if b else None))
            res = nxt
        return done + res

    def rest_item(self, st, rest, k):
        tags = set(rest.tags & {'user'})
        for t in rest.tags:
            if isinstance(t, str) and t.startswith('val:'):
                tags |= set(t[4:].split('|'))
        return Sym(('item', rest, k), tags)

    def dict_set(self, st, d, k, v, fr, n):
        out = []
        o = st.obj(d)
        symkey = isinstance(k, Sym) or (isinstance(k, TupleV) and any(isinstance(x, Sym) for x in k.items))
        if k in o.items or not (symkey or any(isinstance(kk, Sym) for kk in o.items)):
            self.event(st, fr, n, 'mutate', obj=d, op='setitem', key=k, value=v)
            st.mut(d).items[k] = v
            self.dict_writeback(st, d, k, v)
            return [(st, NONE)]
        res = [st]
        for kk in list(o.items):
            nxt = []
            for s in res:
                for s2, b in self.equal(s, kk, k, fr, n):
                    if b is True:
                        self.event(s2, fr, n, 'mutate', obj=d, op='setitem', key=kk, value=v)
                        s2.mut(d).items[kk] = v
                        out.append((s2, NONE))
                    else:
                        nxt.append(s2)
            res = nxt
        for s in res:
            self.event(s, fr, n, 'mutate', obj=d, op='setitem', key=k, value=v)
            s.mut(d).items[k] = v
            out.append((s, NONE))
        return out

    def dict_writeback(self, st, d, k, v):
        ref = st.obj(d).meta.get('dict_of')
        if ref is not None and isinstance(k, Const):
            st.mut(ref).attrs[k.v] = v

    def dict_remove(self, st, d, k):
        m = st.mut(d)
        for kk in list(m.items):
            if kk == k or (isinstance(kk, Const) and isinstance(k, Const) and kk.v == k.v):
                del m.items[kk]
                return
        for kk in list(m.items):
            if isinstance(kk, Sym) or isinstance(k, Sym):
                if st.facts.get(('eq',) + tuple(sorted((kk, k), key=repr))) or st.facts.get(('eq', kk, k)) or st.facts.get(('eq', k, kk)):
                    del m.items[kk]
                    return
        if m.meta.get('rest') is not None:
            m.meta = dict(m.meta)
            m.meta['gone'] = frozenset(m.meta.get('gone') or ()) | {k}

    def dict_update(self, st, d, other, fr, n):
        """d.update(other) -> [(st, NONE|Exc)]"""
        if isinstance(other, Ref) and st.obj(other).kind == 'dict':
            oo = st.obj(other)
            res = [(st, NONE)]
            rest = oo.meta.get('rest')
            if rest is not None:
                m = st.mut(d)
                cur = m.meta.get('rest')
                m.meta = dict(m.meta)
                if cur is None:
                    m.meta['rest'] = rest
                elif cur != rest:
                    m.meta['rest'] = Sym(('merge', cur, rest), {'dict'})
                if m.items and not m.meta.get('gone'):
                    pass
                m.meta['rest_after'] = tuple(m.items)
            for k, v in list(oo.items.items()):
                res = self.map(res, lambda s, _, k=k, v=v: self.dict_set(s, d, k, v, fr, n))
            return res
        if isinstance(other, Sym):
            m = st.mut(d)
            m.meta = dict(m.meta)
            cur = m.meta.get('rest')
            m.meta['rest'] = other if cur is None else (cur if cur == other else Sym(('merge', cur, other), {'dict'}))
            m.meta['rest_after'] = tuple(m.items)
            self.event(st, fr, n, 'mutate', obj=d, op='update', value=other)
            return [(st, NONE)]
        if isinstance(other, Ref) and st.obj(other).kind == 'inst':
            # mapping protocol: keys() + __getitem__
            def k1(s, f):
                return self.map(self.call(s, f, Pack(), fr, n), lambda s2, ks: self.map(self.iter_values(s2, ks, fr, n), lambda s3, xs: fill(s3, xs)))

            def fill(s, xs):
                res = [(s, NONE)]
                for x in xs:
                    res = self.map(res, lambda s2, _, x=x: self.map(self.getitem(s2, other, x, fr, n), lambda s3, v: self.dict_set(s3, d, x, v, fr, n)))
                return res
            return self.map(self.getattr(st, other, 'keys', fr, n), k1)

        def pairs(s, xs):
            res = [(s, NONE)]
            for x in xs:
                res = self.map(res, lambda s2, _, x=x: self.map(self.iter_values(s2, x, fr, n), lambda s3, kv: self.dict_set(s3, d, kv[0], kv[1], fr, n)))
            return res
        return self.map(self.iter_values(st, other, fr, n), pairs)

    # ------------------------------------------------------------ iteration
    def elem(self, st, src, i):
        f = getattr(self.policy, 'elem', None)
        if f is not None:
            r = f(self, st, src, i)
            if r is not None:
                return r
        tags = set(src.tags & {'user'})
        for t in src.tags:
            if isinstance(t, str) and t.startswith('of:'):
                tags |= set(t[3:].split('|'))
        return Sym(('elem', src, i), tags)

    def concrete(self, st, items):
        """expand StarV elements -> [(st, list)]"""
        res = [(st, [])]
        for x in items:
            out = []
            for s, acc in res:
                if isinstance(x, StarV):
                    for s2, ln in self.sym_len(s, x.src):
                        out.append((s2, acc + [self.elem(s2, x.src, i) for i in range(ln)]))
                else:
                    out.append((s, acc + [x]))
            res = out
        return res

    def iter_values(self, st, v, fr, n):
        """-> [(st, list | Exc)]"""
        if isinstance(v, TupleV):
            return self.concrete(st, v.items)
        if isinstance(v, Const):
            if isinstance(v.v, (str, bytes)):
                return [(st, [Const(c) for c in v.v])]
            if isinstance(v.v, (tuple, frozenset)):
                return [(st, [Const(c) for c in v.v])]
            return [self.raise_(st, 'TypeError', 'not iterable')]
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ('list', 'set'):
                return self.concrete(st, o.items)
            if o.kind == 'dict':
                return self.dict_keys(st, v)
            if o.kind == 'view':
                return self.view_pairs(st, v)
            if o.kind == 'gen':
                return self.run_generator(st, v, fr, n)
            if o.kind == 'inst':
                if isinstance(o.cls, Ref):
                    f = self.class_lookup(st, o.cls, '__iter__')
                    if f is not None:
                        return self.map(self.call(st, BoundV(f, v), Pack(), fr, n), lambda s, it: self.iter_values(s, it, fr, n))
                    g = self.class_lookup(st, o.cls, '__next__')
                    if g is not None:
                        return self.iter_next(st, v, g, fr, n)
                ex = self.ext_bases(st, o.cls)
                if ex:
                    return self.iter_values(st, Sym(('iter', v)), fr, n)
            if o.kind == 'ext':
                return self.ext_iter(st, v, fr, n)
            return [self.raise_(st, 'TypeError', 'not iterable')]
        if isinstance(v, Sym):
            if st.facts.get(('none', v)) or self.sym_type(st, v) in ('int', 'float', 'NoneType', 'function', 'module'):
                return [self.raise_(st, 'TypeError', 'not iterable')]
            self.event(st, fr, n, 'iterate', value=v)
            return [(s, [self.elem(s, v, i) for i in range(ln)]) for s, ln in self.sym_len(st, v)]
        return [self.raise_(st, 'TypeError', 'not iterable')]

    def iter_next(self, st, v, g, fr, n):
        out = []
        cur = [(st, [])]
        for i in range(400):
            nxt = []
            for s, acc in cur:
                if i > self.policy.loop_bound + 2 and len(cur) > 1:
                    self.cuts += 1
                    s.dead = 'loop'
                    self.dead_states.append(s)
                    continue
                for s2, r in self.call(s, BoundV(g, v), Pack(), fr, n):
                    if isinstance(r, Exc):
                        for s3, m in self.exc_match(s2, r.value, ExtV('builtins.StopIteration')):
                            out.append((s3, acc if m else r))
                    else:
                        nxt.append((s2, acc + [r]))
            cur = nxt
            if not cur:
                break
        return out

    def dict_pairs(self, st, d):
        """-> [(st, [(k, v)])]"""
        o = st.obj(d)
        items = list(o.items.items())
        rest = o.meta.get('rest')
        if rest is None:
            return [(st, items)]
        out = []
        for s, ln in self.sym_len(st, rest):
            ks = [Sym(('key', rest, i), {'str'}) for i in range(ln)]
            out.append((s, items + [(k, Sym(('val', rest, i), rest.tags & {'user'})) for i, k in enumerate(ks)]))
        return out

    def dict_keys(self, st, d):
        return [(s, [k for k, _ in ps]) for s, ps in self.dict_pairs(st, d)]

    # ------------------------------------------------------------ types
    def typeof(self, st, v):
        if isinstance(v, Const):
            if v.v is None:
                return ExtV('builtins.NoneType')
            return ExtV('builtins.' + type(v.v).__name__)
        if isinstance(v, TupleV):
            return ExtV('builtins.tuple')
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ('inst', 'ext') and o.cls is not None:
                return o.cls
            return ExtV(TYPES_OF.get(o.kind, 'builtins.object'))
        if isinstance(v, Sym):
            return Sym(('typeof', v), {'type'})
        if isinstance(v, ExtV):
            return ExtV('builtins.type') if self.is_ext_class(v) else ExtV('types.BuiltinFunctionType')
        if isinstance(v, BoundV):
            return ExtV('types.MethodType')
        if isinstance(v, WrapV):
            return ExtV({'static': 'builtins.staticmethod', 'class': 'builtins.classmethod', 'property': 'builtins.property'}[v.kind])
        return ExtV('builtins.object')

    def is_ext_class(self, v):
        r = self.real_ext(v.name)
        return isinstance(r, type)

    def ext_exc(self, v):
        """ExtV of an exception class -> tuple of names of its ancestors (including itself), or None"""
        if not isinstance(v, ExtV):
            return None
        from .interp import EXTRA_EXC
        nm = v.name
        if nm in EXTRA_EXC:
            base = self.ext_exc(ExtV('builtins.' + EXTRA_EXC[nm])) or ()
            return (nm,) + base
        r = self.real_ext(nm)
        if isinstance(r, type) and issubclass(r, BaseException):
            return tuple(self.exc_name(c) for c in r.__mro__ if issubclass(c, BaseException))
        return None

    @staticmethod
    def exc_name(c):
        return ('builtins.' if c.__module__ == 'builtins' else c.__module__ + '.') + c.__qualname__

    def is_exc_class(self, st, c):
        if isinstance(c, ExtV):
            return self.ext_exc(c) is not None
        if isinstance(c, Ref):
            return any(isinstance(b, ExtV) and self.ext_exc(b) is not None for b in self.mro(st, c))
        return False

    def ext_bases(self, st, c):
        if isinstance(c, ExtV):
            return [c]
        if not isinstance(c, Ref):
            return []
        return [b for b in self.mro(st, c) if isinstance(b, ExtV) and b.name not in ('builtins.object', 'abc.ABC', 'typing.Generic', 'typing.Protocol')]

    def exc_match(self, st, exc, t):
        """does `except t` catch exc -> [(st, bool)]"""
        return self.isinstance_(st, exc, t)

    def isinstance_(self, st, v, c):
        """-> [(st, bool)]"""
        if isinstance(c, TupleV):
            res = [(st, False)]
            for x in c.items:
                nres = []
                for s, r in res:
                    if r:
                        nres.append((s, r))
                    elif isinstance(x, StarV):
                        for s2, xs in self.concrete(s, [x]):
                            nres.extend(self.isinstance_(s2, v, TupleV(xs)))
                    else:
                        nres.extend(self.isinstance_(s, v, x))
                res = nres
            return res
        if isinstance(c, Ref) and st.obj(c).kind in ('list', 'set'):
            return self.isinstance_(st, v, TupleV(st.obj(c).items))
        if isinstance(c, Sym):
            if isinstance(v, Sym) and v.tags & {'exc'} and 'exc_class' not in c.tags:
                pass
            key = ('isinst', v, c)
            if c.name[0] == 'typeof' and c.name[1] == v:
                return [(st, True)]
            if key in st.facts:
                return [(st, st.facts[key])]
            if isinstance(v, Sym) and 'BaseException' in v.tags and 'exc_class' in c.tags:
                return [(st, False)]
            res = self.decide(st, key)
            for s, r in res:
                if not r:
                    s.facts.setdefault(('typeis', v, c), False)
            return res
        if isinstance(c, ExtV):
            return self.isinst_ext(st, v, c)
        if isinstance(c, Ref):
            if isinstance(v, Ref):
                o = st.obj(v)
                if o.kind == 'inst' and isinstance(o.cls, Ref):
                    return [(st, c in self.mro(st, o.cls))]
                return [(st, False)]
            if isinstance(v, Sym):
                cn = st.obj(c).attrs['__name__'].v if '__name__' in st.obj(c).attrs else '?'
                if 'inst:' + str(cn) in v.tags:
                    return [(st, True)]
                if self.sym_type(st, v) is not None and not self.is_exc_class(st, c):
                    return [(st, False)]
                if 'exc' in v.tags and self.is_exc_class(st, c):
                    anc = [b for b in self.mro(st, c)]
                    if 'BaseException' in v.tags and ExtV('builtins.Exception') in anc:
                        return [(st, False)]
                return self.decide(st, ('isinst', v, c))
            return [(st, False)]
        return [(st, False)]

    def isinst_ext(self, st, v, c):
        from .interp import PYT
        nm = c.name
        if nm == 'builtins.object':
            return [(st, True)]
        anc = self.ext_exc(c)
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == 'inst':
                if isinstance(o.cls, ExtV):
                    a = self.ext_exc(o.cls)
                    if a is not None:
                        return [(st, anc is not None and nm in a)]
                    return [(st, o.cls == c)]
                for b in self.mro(st, o.cls):
                    if isinstance(b, ExtV):
                        a = self.ext_exc(b)
                        if (a is not None and nm in a) or b == c:
                            return [(st, True)]
                r = self.real_ext(nm)
                if isinstance(r, type) and r.__module__ in ('collections.abc', 'typing'):
                    need = {'Iterable': ['__iter__'], 'Callable': ['__call__'], 'Sized': ['__len__'], 'Container': ['__contains__'], 'Hashable': ['__hash__'],
                            'Awaitable': ['__await__'], 'Iterator': ['__iter__', '__next__'], 'Collection': ['__len__', '__iter__', '__contains__']}.get(r.__name__)
                    if need:
                        return [(st, all(self.class_lookup(st, o.cls, x) is not None for x in need))]
                return [(st, False)]
            if o.kind == 'ext':
                if o.cls == c:
                    return [(st, True)]
                return [(st, self.ext_subclass(o.cls, c))]
            kinds = {'list': list, 'dict': dict, 'set': set}
            r = self.real_ext(nm)
            if o.kind in kinds and isinstance(r, type):
                return [(st, issubclass(kinds[o.kind], r))]
            if o.kind == 'func':
                return [(st, nm in ('types.FunctionType', 'types.LambdaType', 'collections.abc.Callable'))]
            if o.kind == 'class':
                return [(st, nm in ('builtins.type', 'collections.abc.Callable'))]
            if o.kind == 'module':
                return [(st, nm == 'types.ModuleType')]
            return [(st, False)]
        if isinstance(v, Const):
            r = self.real_ext(nm)
            try:
                return [(st, isinstance(v.v, r))]
            except TypeError:
                return [(st, False)]
        if isinstance(v, TupleV):
            r = self.real_ext(nm)
            return [(st, isinstance(r, type) and issubclass(tuple, r))]
        if isinstance(v, Sym):
            if nm.startswith('builtins.') and nm[9:] in PYT or nm in ('types.NoneType', 'builtins.NoneType'):
                if v.name[0] == 'typeof':
                    return [(st, False)]
                return self.sym_isinst(st, v, nm.split('.')[-1])
            if nm == 'builtins.type':
                return self.sym_is_class(st, v)
            if nm == 'types.ModuleType':
                return self.sym_isinst(st, v, 'module')
            if nm in ('types.FunctionType', 'types.LambdaType'):
                return self.sym_isinst(st, v, 'function')
            if anc is not None:
                t = self.sym_type(st, v)
                if t is not None and t != 'exc':
                    return [(st, False)]
                if 'exc' in v.tags:
                    if nm == 'builtins.BaseException':
                        return [(st, True)]
                    if nm == 'builtins.Exception':
                        if 'Exception' in v.tags:
                            return [(st, True)]
                        if 'BaseException' in v.tags:
                            return [(st, False)]
                    if 'BaseException' in v.tags and 'builtins.Exception' in anc:
                        return [(st, False)]
                    if 'Exception' in v.tags and 'builtins.Exception' not in anc:
                        return [(st, False)]
                    for tg in v.tags:
                        if tg.startswith('only:'):
                            a = self.ext_exc(ExtV(tg[5:])) or ()
                            return [(st, nm in a)]
                for k, val in st.facts.items():
                    if k[0] == 'isinst' and k[1] == v and isinstance(k[2], ExtV):
                        if val and nm in (self.ext_exc(k[2]) or ()):
                            return [(st, True)]
                        if not val and k[2].name in anc:
                            return [(st, False)]
                f = getattr(self.policy, 'exc_isinst', None)
                if f is not None:
                    r = f(self, st, v, c)
                    if r is not None:
                        return [(st, r)]
                res = self.decide(st, ('isinst', v, c))
                for s, r in res:
                    if r:
                        s.facts.setdefault(('type', v), 'exc') if 'exc' not in v.tags else None
                return res
            if nm == 'collections.abc.Callable':
                return self.callable_(st, v)
            t = self.sym_type(st, v)
            r = self.real_ext(nm)
            if t in PYT and isinstance(r, type):
                try:
                    return [(st, issubclass(PYT[t], r))]
                except TypeError:
                    pass
            return self.decide(st, ('isinst', v, c))
        if isinstance(v, (BoundV, MethV)):
            return [(st, nm in ('types.MethodType', 'collections.abc.Callable'))]
        if isinstance(v, WrapV):
            return [(st, nm == {'static': 'builtins.staticmethod', 'class': 'builtins.classmethod', 'property': 'builtins.property'}[v.kind])]
        if isinstance(v, ExtV):
            r, t = self.real_ext(v.name), self.real_ext(nm)
            if r is not None and isinstance(t, type):
                return [(st, isinstance(r, t))]
        return [(st, False)]

    def ext_subclass(self, a, b):
        if not isinstance(a, ExtV) or not isinstance(b, ExtV):
            return False
        x, y = self.real_ext(a.name), self.real_ext(b.name)
        try:
            return isinstance(x, type) and isinstance(y, type) and issubclass(x, y)
        except TypeError:
            return False

    def sym_is_class(self, st, v):
        if 'type' in v.tags or 'exc_class' in v.tags:
            return [(st, True)]
        return self.sym_isinst(st, v, 'type')

    def callable_(self, st, v):
        """-> [(st, bool)]"""
        if isinstance(v, (Const, TupleV)):
            return [(st, False)]
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == 'inst':
                return [(st, isinstance(o.cls, Ref) and self.class_lookup(st, o.cls, '__call__') is not None)]
            return [(st, o.kind in ('func', 'class', 'partial') or (o.kind == 'ext' and bool(o.meta.get('callable'))))]
        if isinstance(v, Sym):
            if v.tags & {'callable', 'exc_class', 'type'} or v.tags & {'function'}:
                return [(st, True)]
            k = st.facts.get(('callable', v))
            if k is not None:
                return [(st, k)]
            t = self.sym_type(st, v)
            if t in ('type', 'function'):
                return [(st, True)]
            if t is not None or st.facts.get(('none', v)) or v.tags & {'bool', 'rank', 'str', 'int'}:
                return [(st, False)]
            if st.facts.get(('truth', v)) is False:
                # falsy callables do not occur
                return [(st, False)]
            res = self.decide(st, ('callable', v))
            for s, r in res:
                if r:
                    s.facts.setdefault(('none', v), False)
            return res
        if isinstance(v, ExtV):
            r = self.real_ext(v.name)
            return [(st, r is None or callable(r))]
        return [(st, True)]
