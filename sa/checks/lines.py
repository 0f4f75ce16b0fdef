"""The texts the shipped handlers make of a record: the line of a file, the letter."""
from .handlers import *
from ..values import Exc

BF = 'polog/handlers/file/base_formatter.py:BaseFormatter'
FE = 'polog/handlers/file/base_formatter_fields_extractors.py:BaseFormatterFieldsExtractors'
TXT = {'str', 'notnone'}
TIME = Sym('time_of_the_record', {'object', 'notnone', 'user'})
MESSAGE = Sym('message_text', TXT)
FUN, KLASS, MODULE = Sym('function_name', TXT), Sym('class_name', TXT), Sym('module_name', TXT)
ETYPE, ETEXT = Sym('exception_name', TXT), Sym('exception_text', TXT)
EXTRA, EXTRA2 = Sym('extra_value', {'user', 'object', 'notnone'}), Sym('extra_value_2', {'user', 'object', 'notnone'})
EXSTR = Sym('extra_text', TXT)
VAL = [Sym('value_%d' % i, TXT) for i in range(4)]
TYP = [Sym('type_%d' % i, TXT) for i in range(4)]
INPUT, LOCAL, RES, TB, BADJ = (Sym(n, TXT | {'nonempty'}) for n in ('input_json', 'local_json', 'result_json', 'traceback_json', 'not_json'))


class Texts(UserPolicy):
    """the json module decodes the texts the library made; str() of objects of the user may raise"""
    user_str_raises = True
    inputs = None

    def call(self, it, st, callee, name, pack, fr, n):
        if (isinstance(callee, Sym) and callee.name[0] == 'attr' and callee.name[-1] == 'loads') or str(name).endswith('json.loads'):
            d = self.inputs.get(pack.pos[0]) if pack.pos else None
            if d is None:
                return [it.raise_(st, 'ValueError', 'not a text of json')]
            return [(st, build(it, st, d))]
        return None


def build(it, st, d):
    if isinstance(d, dict):
        return it.alloc(st, Obj('dict', items={Const(k): build(it, st, v) for k, v in d.items()}))
    if isinstance(d, list):
        return it.alloc(st, Obj('list', items=[build(it, st, v) for v in d]))
    return d if not isinstance(d, (str, int, float, bool, type(None))) else Const(d)


def var(i):
    return {'value': VAL[i], 'type': TYP[i]}


INPUTS = [{'args': [var(0)]}, {'args': [var(0), var(1)], 'kwargs': {'x': var(2), 'y': var(3)}}, {'kwargs': {'x': var(2)}}]
SPEC = '''
def shown(value, type_):
    return ('"' + value + '"' if type_ == 'str' else value) + ' (' + type_ + ')'
def text_of(value):
    try:
        return str(value)
    except Exception:
        return ''
def field_text(value):
    return '"' + text_of(value) + '"' if isinstance(value, str) else text_of(value)
def line(parts):
    return ' | '.join(parts) + SEP
def record(**fields):
    item = LogItem()
    item.set_data({key: value for key, value in fields.items()})
    return item
def check_it(fields):
    written.clear()
    writer(record(**fields))
    return tuple(written)
'''
LDEFS = BDEFS + '''
from polog.core.log_item import LogItem
from polog.core.stores.levels import Levels
written = []
class Stream(Out):
    def write(self, x):
        written.append(x)
class Post(Mail):
    def send(self, message):
        written.append(message)
writer = file_writer(Stream(), separator=SEP)
''' + SPEC
SEP = Sym('separator', TXT)
B = dict(TIME=TIME, MESSAGE=MESSAGE, FUN=FUN, KLASS=KLASS, MODULE=MODULE, ETYPE=ETYPE, ETEXT=ETEXT, EXTRA=EXTRA, EXTRA2=EXTRA2, EXSTR=EXSTR, INPUT=INPUT, LOCAL=LOCAL, RES=RES, TB=TB, BADJ=BADJ, SEP=SEP,
         **{'V%d' % i: v for i, v in enumerate(VAL)}, **{'T%d' % i: v for i, v in enumerate(TYP)})
NOTIME = "'[----time not specified----]'"
HEAD = [NOTIME, "'UNKNOWN'", "'UNKNOWN'", "'MANUAL'"]


def case(head=None, **kw):
    h = list(HEAD)
    for i, x in (head or {}).items():
        h[i] = x
    return h


def cases():
    """(name, source of the fields, sources of the parts of the line, preparation)"""
    W = "'where: ?'"

    def one(name, fields, parts=(), where=W, pre='', **head):
        h = case({'time': 0, 'level': 1, 'success': 2, 'auto': 3} and {{'time': 0, 'level': 1, 'success': 2, 'auto': 3}[k]: v for k, v in head.items()})
        before = [x for x in parts if x.startswith('<')]
        return (name, fields, h + [x[1:] for x in before] + [where] + [x for x in parts if not x.startswith('<')], pre)
    out = [one('no fields', '{}'), one('all fields None', "{%s}" % ', '.join('%r: None' % k for k in ('time', 'level', 'success', 'auto', 'message', 'function', 'class', 'module', 'time_of_work', 'input_variables', 'local_variables', 'exception_type', 'exception_message', 'traceback', 'own')))]
    out.append(one('time', "{'time': TIME}", time="'[' + text_of(TIME) + ']'"))
    for v, s in (('True', 'SUCCESS'), ('False', ' ERROR '), ('None', 'UNKNOWN')):
        out.append(one('success=%s' % v, "{'success': %s}" % v, success="'%s'" % s))
    for v, s in (('True', ' AUTO '), ('False', 'MANUAL')):
        out.append(one('auto=%s' % v, "{'auto': %s}" % v, auto="'%s'" % s))
    out.append(one('message', "{'message': MESSAGE}", ["<'\"' + MESSAGE + '\"'"]))
    out.append(one('empty message', "{'message': ''}", ["<'\"\"'"]))
    for n in (0, 5, 1000000, 123456789):
        out.append(one('level %d' % n, "{'level': %d}" % n, level="'%s'" % format(str(n), '^7')))
    for n, s in ((20, 'info'), (50, 'critical'), (7, '7')):
        out.append(one('level %d of the standard ones' % n, "{'level': %d}" % n, level="'%s'" % format(s, '^8'), pre='config.standard_levels()\n'))
    out.append(one('level with a long name', "{'level': 3}", level="'a_very_long_name'", pre='config.levels(a_very_long_name=3)\n'))
    out.append(one('level with a long name given later', "{'level': 3}", level="'a_very_long_name'", pre='check_it({})\nconfig.levels(a_very_long_name=3)\n'))
    for svc in ('', 'svc'):
        for m in (0, 1):
            for c in (0, 1):
                for f in (0, 1):
                    ps = (["'svc'"] if svc else []) + ['MODULE'] * m + ['KLASS'] * c + ['FUN'] * f
                    fs = ["'module': MODULE"] * m + ["'class': KLASS"] * c + ["'function': FUN"] * f
                    where = "'where: ' + " + " + '.' + ".join(ps) + (" + '()'" if f else " + '.?'") if ps else W
                    out.append(one('place (%s)' % ', '.join(ps), '{%s}' % ', '.join(fs), where=where, pre='config.set(service_name="svc")\n' if svc else ''))
    for t in (0, 0.0, 1, 10, 100.0, 3600, 0.5, 0.25, 1.05, 10.1, 0.00001478, 1.4e-7, 1e-9, 120.00000001, 0.123456789, 2.999999999):
        s = '%.8f' % t
        s = s.rstrip('0').rstrip('.')
        out.append(one('time of work %r' % t, "{'time_of_work': %r}" % t, ["'time of work: %s sec.'" % s]))
    return out


def decoded(i):
    a = ["shown(V%d, T%d)" % (k, k) for k in ([0], [0, 1], [])[i]]
    return " + ', ' + ".join(a + [("'%s = ' + shown(V%d, T%d)" % (n, k, k)) for n, k in ([], [('x', 2), ('y', 3)], [('x', 2)])[i]])


LINES = ['  File "/dir/main.py", line 9, in division\n    return a / b\n', '  File "x.py", line 10, in <module>\n    f()\n', '  File "y.py", line 1, in g\n']
SHOWN = ['return a / b ("/dir/main.py", line 9, in division)', 'f() ("x.py", line 10, in <module>)', ' ("y.py", line 1, in g)']


def json_cases():
    """(name, fields, parts after the head and the place, decoded texts)"""
    out = []
    for i, d in enumerate(INPUTS):
        out.append(('input variables', "{'input_variables': INPUT}", ["'input variables: ' + " + decoded(i)], {INPUT: d}))
        out.append(('local variables', "{'local_variables': LOCAL}", ["'local variables: ' + " + decoded(i)], {LOCAL: d}))
    out.append(('result', "{'result': RES}", ["'result: ' + shown(V0, T0)"], {RES: var(0)}))
    for k in ([0], [0, 1], [1, 0, 1], [2]):
        out.append(('traceback', "{'traceback': TB}", ["'traceback: %s'" % '; '.join(SHOWN[i] for i in k)], {TB: [LINES[i] for i in k]}))
    out.append(('empty traceback', "{'traceback': TB}", ["'no traceback'"], {TB: []}))
    for k in range(4):
        fs = ["'exception_type': ETYPE"] * (k & 1) + ["'exception_message': ETEXT"] * (k >> 1)
        ps = [[], ["'exception: ' + ETYPE + '()'"], [], ["'exception: ' + ETYPE + '(\"' + ETEXT + '\")'"]][k]
        out.append(('exception %d' % k, '{%s}' % ', '.join(fs), ps, {}))
    out.append(('extra fields', "{'own': EXTRA, 'other': EXSTR, 'absent': None, 'flag': False, 'zero': 0, 'last': ''}",
                ["'own: ' + field_text(EXTRA)", "'other: \"' + EXSTR + '\"'", "'flag: False'", "'zero: 0'", "'last: \"\"'"], {}))
    out.append(('extra fields in another order', "{'other': EXSTR, 'own': EXTRA}", ["'other: \"' + EXSTR + '\"'", "'own: ' + field_text(EXTRA)"], {}))
    out.append(('fields shown elsewhere', "{'service_name': 'x', 'exception_message': ETEXT}", [], {}))
    full = "{'own': EXTRA, 'traceback': TB, 'exception_message': ETEXT, 'exception_type': ETYPE, 'result': RES, 'local_variables': LOCAL, 'input_variables': INPUT, 'time_of_work': 0.5, 'message': MESSAGE, 'other': EXSTR, 'auto': True, 'success': False, 'level': 2, 'time': TIME}"
    out.append(('everything', full, ["'time of work: 0.5 sec.'", "'input variables: ' + " + decoded(0), "'local variables: ' + " + decoded(2), "'result: ' + shown(V1, T1)", "'exception: ' + ETYPE + '(\"' + ETEXT + '\")'", "'traceback: %s'" % SHOWN[0],
                                     "'own: ' + field_text(EXTRA)", "'other: \"' + EXSTR + '\"'"], {INPUT: INPUTS[0], LOCAL: INPUTS[2], RES: var(1), TB: [LINES[0]]}))
    return out


def flat(v):
    if isinstance(v, Sym) and v.name[0] == 'fstr':
        return [y for x in v.name[1:] for y in flat(x)]
    return [v]


def c32(ctx):
    pol = Texts(raises=())
    pol.inputs = {}
    w = engine_world(ctx, pol, fixed={'deduplicate_errors': FALSE, 'suppress_by_default': FALSE, 'silent_internal_exceptions': FALSE, 'service_name': None}, levels=False)
    for t in (INPUT, LOCAL, RES, TB, BADJ, FUN, KLASS, MODULE):
        w.base.facts[('truth', t)] = True
    w.base.freeze()
    b = bbinds(**B)

    def go(name, fields, parts, pre, inputs):
        pol.inputs = inputs
        for p in w.client(LDEFS + pre + 'lines = check_it(%s) + check_it(%s)\n' % (fields, fields), **b):
            t = 'the line of a record (%s)' % name
            if not ctx.check(p.exc is None, 'written', FE, '%s: %s' % (t, p.show_exc()), p):
                continue
            if any(k[0] == 'strok' and v is False for k, v in p.st.facts.items()):
                continue                      # decided below
            if not ctx.check(len(p.var('lines').items) == 2, 'written', BF, '%s: %d lines for 2 records' % (t, len(p.var('lines').items)), p):
                continue
            for q, want in p.eval('line([%s])' % ', '.join(parts)):
                if any(k[0] == 'strok' and v is False for k, v in q.st.facts.items()):
                    continue
                for i, got in enumerate(p.var('lines').items):
                    for r, ok in q.decide('G == W_', G=got, W_=want):
                        ctx.check(ok, 'line', FE, '%s%s: %r, expected %r' % (t, ', not the first one' if i else '', got, want), r)
    jobs = [('go', (n, f, ps, pre, {})) for n, f, ps, pre in cases()]
    for n, f, ps, inp in json_cases():
        head, where = list(HEAD), ["'where: ?'"]
        if n == 'everything':
            head = ["'[' + text_of(TIME) + ']'", "'%s'" % format('2', '^7'), "' ERROR '", "' AUTO '", "'\"' + MESSAGE + '\"'"]
        jobs.append(('go', (n, f, head + where + ps, '', inp)))

    def hostile(name, fields, first, last):
        """a field that has no text: the line is written, with everything else"""
        pol.inputs = {}
        for p in w.client(LDEFS + 'lines = check_it(%s) + check_it(%s)\n' % (fields, fields), **b):
            t = 'the line of a record with %s' % name
            if not ctx.check(p.exc is None and len(p.var('lines').items) == 2, 'nothing-lost', BF, '%s is not written (%s)' % (t, p.show_exc()), p):
                continue
            for v in p.var('lines').items:
                fl = flat(v)
                ctx.check(isinstance(fl[0], Const) and fl[0].v.startswith(first) and fl[-1] == SEP and isinstance(fl[-2], Const) and fl[-2].v.endswith(last) and all(x in ''.join(y.v for y in fl if isinstance(y, Const)) for x in ('UNKNOWN | UNKNOWN | MANUAL |', 'where: ') + (('"m"',) if "'m'" in fields else ())), 'nothing-lost', BF, '%s lacks other fields: %r' % (t, v), p)
    H0 = '[----time not specified----] | UNKNOWN | UNKNOWN | MANUAL | '
    H1 = H0 + 'where: ?'
    TAIL = ' | last: "x"'
    for nm, fs, a, z in (('an extra field without a text', "{'time_of_work': 1, 'own': EXTRA, 'last': 'x'}", H1 + ' | time of work: 1 sec. | own', TAIL), ('two extra fields without a text', "{'own': EXTRA, 'two': EXTRA2, 'last': 'x'}", H1 + ' | own', TAIL),
                         ('a message without a text', "{'message': EXTRA, 'last': 'x'}", H0, TAIL), ('a result without a text', "{'result': EXTRA, 'last': 'x'}", H1, TAIL),
                         ('a time without a text', "{'time': TIME, 'message': 'm', 'last': 'x'}", '', TAIL),
                         ('a duration that is not a number', "{'message': 'm', 'time_of_work': EXTRA, 'last': 'x'}", H0 + '"m" | where: ?', TAIL),
                         ('a function that is not a name', "{'function': EXTRA, 'message': 'm', 'last': 'x'}", H0 + '"m" | ', TAIL)) + tuple(
                             ('%s not made by the library' % k, "{'message': 'm', '%s': %s, 'last': 'x'}" % (k, v), H0 + '"m" | where: ?', TAIL) for k in ('input_variables', 'local_variables', 'result', 'traceback') for v in ('BADJ', '5', 'EXTRA')):
        jobs.append(('hostile', (nm, fs, a, z)))

    def letter():
        pol.inputs = {}
        for p in w.client(LDEFS + 'letter = SMTP_sender("a", "b", "c", "d", smtp_wrapper=Post)\nletter(record(message=MESSAGE, own=EXTRA, last="x"))\nn = len(written)\n', **b):
            ctx.check(p.exc is None and p.var('n') == Const(1), 'nothing-lost', SM, 'the letter about a record with an extra field without a text is not sent', p)
    jobs.append(('letter', ()))
    todo = {'go': go, 'hostile': hostile, 'letter': letter}
    ctx.spread(jobs, lambda j: todo[j[0]](*j[1]))
    for r, n in (('line', 100), ('nothing-lost', 20)):
        ctx.floor(r, n)
