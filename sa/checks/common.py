"""Opaque inputs of the most general clients."""
from ..lib import *

USER = Sym('user_function', {'user', 'callable', 'function'})
AUSER = Sym('user_coroutine_function', {'user', 'callable', 'function', 'asyncfn'})
ARGS = Sym('args', {'tuple', 'user'})
KW = Sym('kwargs', {'dict', 'user'})
MSG = Sym('message', {'str', 'notnone'})
LVL = Sym('level_number', {'int', 'rank', 'nonneg', 'notnone'})
ELVL = Sym('errors_level_number', {'int', 'rank', 'nonneg', 'notnone'})
LNAME = Sym('level_name', {'str', 'notnone'})
ELNAME = Sym('errors_level_name', {'str', 'notnone'})
E1 = Sym('ExceptionClass1', {'type', 'excclass', 'callable'})
E2 = Sym('ExceptionClass2', {'type', 'excclass', 'callable'})
REG = Sym('level_registry', {'dict', 'val:int|rank|nonneg|notnone'})

DEFS = '''
from polog import log, flog, clog, unlog, message, handle_log, config
def f(*a, **k):
    return USER(*a, **k)
async def af(*a, **k):
    return await AUSER(*a, **k)
'''

FL = 'polog/loggers/auto/function_logger.py:FunctionLogger'


def written(it):
    """names of attributes that the library writes on objects other than self"""
    if not hasattr(it, 'written_attrs'):
        names = set()
        for tree in list(it.asts.values()):
            for x in ast.walk(tree[0] if isinstance(tree, tuple) else tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id in ('self', 'cls')):
                    names.add(x.attr)
                elif isinstance(x, ast.Call) and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and getattr(x.func, 'id', getattr(x.func, 'attr', '')) in ('setattr', '__setattr__'):
                    names.add(x.args[1].value)
        it.written_attrs = names
    return it.written_attrs


class UserPolicy(Policy):
    """user code may return anything or raise the listed kinds of exception"""
    user_bool_raises = True

    def __init__(self, raises=('Exception', 'BaseException'), extra=None, **kw):
        self.raises = raises
        self.extra = extra or {}
        for k, v in kw.items():
            setattr(self, k, v)

    def fact(self, it, st, key):
        # names of levels never start with an underscore (decided by C31)
        if key[0] == 'in' and key[2] == REG and isinstance(key[1], Const) and str(key[1].v).startswith('_'):
            return False
        # a freshly raised exception carries no attributes of the library's own
        if key[0] == 'hasattr' and isinstance(key[1], Sym) and key[1].name[0] == 'exc':
            nm = key[2].v if isinstance(key[2], Const) else key[2]
            if isinstance(nm, str) and not hasattr(BaseException(), nm) and nm in written(it):
                return False
        return None

    def may_raise(self, it, st, callee, name, pack):
        if callee in (USER, AUSER):
            return self.raises
        if callee in self.extra:
            return self.extra[callee]
        if name in self.extra:
            return self.extra[name]
        return ()


def binds(**kw):
    d = dict(USER=USER, AUSER=AUSER, A=ARGS, K=KW, MSG=MSG, LVL=LVL, ELVL=ELVL, LNAME=LNAME, ELNAME=ELNAME, E1=E1, E2=E2, REG=REG)
    for k in SETTING_TAGS:
        d['S_' + k] = setting(k)
    d.update(kw)
    return d


def havoc_levels(w):
    """the registry of level names holds any names"""
    r = w.get('polog.core.stores.levels:Levels.levels')
    o = w.base.mut(r)
    o.meta = {**o.meta, 'rest': REG}


def world(ctx, policy=None, levels=True, encode=True, record=True, fixed=None):
    w = ctx.world(policy or UserPolicy())
    w.havoc_settings(fixed)
    if record:
        w.record_hook()
    if encode:
        w.encode_summaries()
    if levels:
        havoc_levels(w)
    w.base.freeze()
    return w


def run(w, src, **kw):
    return w.client(DEFS + src, **binds(**kw))


def atoms(v, st=None, depth=6, acc=None, seen=None):
    """opaque leaves a value is built from"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if depth < 0 or (isinstance(v, Ref) and v in seen):
        return acc
    if isinstance(v, Sym):
        acc.add(v)
        for x in v.name:
            atoms(x, st, depth - 1, acc, seen)
    elif isinstance(v, tuple):
        for x in v:
            atoms(x, st, depth - 1, acc, seen)
    elif isinstance(v, TupleV):
        for x in v.items:
            atoms(x, st, depth - 1, acc, seen)
    elif isinstance(v, StarV):
        atoms(v.src, st, depth - 1, acc, seen)
    elif isinstance(v, Pack):
        for x in v.pos + tuple(v.kw.values()) + v.dstar:
            atoms(x, st, depth - 1, acc, seen)
    elif isinstance(v, BoundV):
        atoms(v.self_, st, depth - 1, acc, seen)
    elif isinstance(v, MethV):
        atoms(v.base, st, depth - 1, acc, seen)
    elif isinstance(v, Ref) and st is not None:
        seen.add(v)
        o = st.obj(v)
        if o.kind in ('list', 'set', 'inst', 'dict', 'partial', 'ext'):
            if o.kind == 'dict':
                for k, x in o.items.items():
                    atoms(k, st, depth - 1, acc, seen)
                    atoms(x, st, depth - 1, acc, seen)
                if o.meta.get('rest') is not None:
                    atoms(o.meta['rest'], st, depth - 1, acc, seen)
            elif o.items is not None:
                for x in o.items:
                    atoms(x, st, depth - 1, acc, seen)
            for x in o.attrs.values():
                atoms(x, st, depth - 1, acc, seen)
    return acc


CLOCKS = {'time.time', 'time.monotonic', 'time.perf_counter', 'time.process_time', 'datetime.datetime.now', 'time.time_ns', 'time.perf_counter_ns', 'time.monotonic_ns'}


def shared_writes(p, boundary, tainted):
    """writes of call-dependent values into objects that existed before the call"""
    out = []
    for e in p.events():
        if e.kind in ('store', 'mutate') and isinstance(e.data.get('obj'), Ref) and e.data['obj'].id < boundary and e.data['obj'] != p.m:
            vals = [e.data.get('value'), e.data.get('key')]
            if any(v is not None and tainted(atoms(v, p.st)) for v in vals):
                out.append(e)
    return out


def where(e):
    """file:function of an event"""
    return '%s:%s' % (e.stack[-1][1], e.stack[-1][0]) if e.stack else str(e.loc[0])
