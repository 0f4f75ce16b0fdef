"""Records of the standard logging module, copied; settings that act on the world outside."""
from .decor import *
from .encode import is_dumps
from ..values import Exc

FI = 'polog/core/stores/settings/actions/integration_with_logging.py:from_logging_filter_to_polog'
AC = 'polog/core/stores/settings/actions/integration_with_logging.py:integration_with_logging'
S = {'str', 'notnone'}
TEXT, MOD, FN, PATH, TN, PN = (Sym(n, S) for n in ('text_of_the_record', 'module_name', 'function_name', 'path_name', 'thread_name', 'process_name'))
LINE, TID, PID, LEVELNO = (Sym(n, {'int', 'notnone'} | t) for n, t in (('line_number', set()), ('thread_id', set()), ('process_id', set()), ('level_of_the_record', {'rank', 'nonneg', 'sub'})))
MESSAGE = Sym('getMessage', {'user', 'callable', 'function', 'ret:str', 'ret:notnone'})
OBJ = Sym('object_of_the_record', {'user', 'notnone'})
ARG = Sym('arguments_of_the_record', {'user', 'notnone'})
XC = Sym('class_of_the_exception', {'type', 'exc_class', 'excclass', 'notnone', 'callable'})
XV = Sym(('exc', 'of the record'), {'exc', 'Exception', 'user', 'notnone'})
TB = Sym('traceback_object', {'notnone', 'traceback'})
CREATED = Sym('time_of_the_record', {'float', 'notnone'})
RECORD = '''
class Record:
    def getMessage(self):
        return MESSAGE()
def make(exc_info, fn):
    r = Record()
    r.created = CREATED
    r.msg = OBJ
    r.args = ARG
    r.levelno = LEVELNO
    r.levelname = TEXT
    r.name = TEXT
    r.module = MOD
    r.lineno = LINE
    r.funcName = fn
    r.pathname = PATH
    r.filename = PATH
    r.exc_info = exc_info
    r.exc_text = None
    r.stack_info = None
    r.threadName = TN
    r.thread = TID
    r.processName = PN
    r.process = PID
    r.msecs = CREATED
    r.relativeCreated = CREATED
    return r
'''
BIND = dict(TEXT=TEXT, MOD=MOD, FN=FN, PATH=PATH, TN=TN, PN=PN, LINE=LINE, TID=TID, PID=PID, LEVELNO=LEVELNO, MESSAGE=MESSAGE, OBJ=OBJ, ARG=ARG, XC=XC, XV=XV, TB=TB, CREATED=CREATED)
# exc_info of the record: is there an exception
EXC = {'None': False, '(None, None, None)': False, '(XC, XV, TB)': True, '()': False}


class Bridge(UserPolicy):
    """formatting the message may fail, as may repr() and str() of the objects in it"""
    user_str_raises = True
    user_bool_raises = True

    def may_raise(self, it, st, callee, name, pack):
        if callee == MESSAGE:
            return ('Exception',)
        return super().may_raise(it, st, callee, name, pack)


def filters(events):
    """-> (filters of the root logger, operations) after these events, as the logging module keeps them"""
    have, n = [], 0
    for e in events:
        if e.kind != 'call' or not e.data.get('pack') or not e.data['pack'].pos:
            continue
        nm = str(e.data['name'])
        c = e.data['callee']
        root = nm.startswith(('logging.root.', 'logging.getLogger()')) or (isinstance(c, MethV) and rootlike(c.base)) or (isinstance(c, Sym) and c.name[0] == 'attr' and rootlike(c.name[1]))
        x = e.data['pack'].pos[0]
        if root and nm.endswith('addFilter'):
            n += 1
            if x not in have:
                have.append(x)
        elif root and nm.endswith('removeFilter'):
            n += 1
            if x in have:
                have.remove(x)
    return have, n


def rootlike(v):
    return 'logging' in repr(v) and ('root' in repr(v) or 'getLogger' in repr(v))


def c28(ctx):
    fixed = {'full_unlog': FALSE, 'service_name': NONE, 'integration_with_logging': None, 'deduplicate_errors': FALSE}
    pol = Bridge(raises=('Exception',))
    w = world(ctx, pol, encode=False, levels=False, fixed={**fixed, 'fields_intersection': FALSE})
    real = world(ctx, Bridge(raises=('Exception',)), fixed={**fixed, 'logging_off': None})

    have0, n0 = filters(w.it.boot_events)
    ctx.check(len(have0) == 1, 'switch', AC, 'after the import of the library %d filters copy records of the root logger, expected one (the integration is on by default)' % len(have0))
    ctx.need(n0 >= 1, 'the filter of the logging module is not registered in a way the analysis follows')
    have0 = filters(real.it.boot_events)[0]

    # switching the integration
    off, on = 'config.set(integration_with_logging=False)\n', 'config.set(integration_with_logging=True)\n'
    for src, n in {'': 1, off: 0, off + on: 1, off + off: 0, on: 1, on + on: 1, off + on + on + off: 0, off + on + off + on: 1}.items():
        for p in run(real, 'config.set(logging_off=False)\n' + src):
            have, _ = filters(real.it.boot_events + p.events())
            ctx.check(p.exc is None and len(have) == n and all(x in have0 for x in have), 'switch', AC, 'after %s %d filters copy records of the root logger, expected %d (%s)' % (src.strip().replace('\n', '; '), len(have), n, p.show_exc()), p)
    if not have0:
        return
    F = filters(w.it.boot_events)[0][0]

    for ei, exc in EXC.items():
        for fn in ('FN', '"<module>"', 'None', '"name"'):
            for p in run(w, RECORD + 'r = make(%s, %s)\nresult = FILTER(r)\n' % (ei, fn), FILTER=F, **BIND):
                what = 'a record of the logging module (exc_info=%s, funcName=%s)' % (ei, fn)
                if not ctx.check(p.exc is None, 'unbroken', FI, '%s breaks the program: %s' % (what, p.show_exc()), p):
                    continue
                for q, ok in p.decide('result == (not S_logging_off)'):
                    ctx.check(ok, 'passed-on', FI, '%s: what the filter returns is not the opposite of "logging_off"' % what, q)
                for q, ok in p.decide('LEVELNO >= S_level', LEVELNO=LEVELNO):
                    rs = records(q)
                    if not ctx.check(len(rs) == (1 if ok else 0), 'once', FI, '%s: %d records are written although its level is%s below the threshold' % (what, len(rs), ' not' if ok else ''), q):
                        continue
                    for r in rs:
                        body(ctx, q, r.data['log'], what, exc, fn)
    for r, n in (('unbroken', 20), ('passed-on', 20), ('once', 20), ('field', 100), ('message', 10), ('switch', 5)):
        ctx.floor(r, n)


def body(ctx, p, rec, what, exc, fn):
    from .manual import content
    want = {'level': 'LEVELNO', 'success': 'LEVELNO < 30', 'module': 'MOD', 'line_number': 'LINE', 'path_to_code': 'PATH', 'thread': 'f"{TN} ({TID})"', 'process': 'f"{PN} ({PID})"', 'from_logging': 'True', 'auto': 'False'}
    if fn == '"name"':
        want['function'] = fn
    elif fn in ('None', '"<module>"'):
        want['function'] = None
    else:
        for q, ok in p.decide('FN.isidentifier()', **BIND):
            content(ctx, 'field', what, FI, q, rec, {'function': 'FN' if ok else None})
    if exc:
        want['exception_type'] = 'XC.__name__'
        if p.st.facts.get(('strok', XV)) is not False:
            want['exception_message'] = 'str(XV)'
        else:
            for q, ok in p.decide('isinstance(REC["exception_message"], str)', REC=rec):
                ctx.check(ok, 'field', FI, '%s: an exception without a text is not replaced by a text' % what, q)
        texts = [e for e in p.events('call') if is_dumps(e.data['callee'], e.data['name']) and e.data['raised'] is None]
        for q, ok in p.decide('"traceback" in REC', REC=rec):
            if ok:
                ok = any(q.eval('REC["traceback"]', REC=rec)[0][1] == e.data['result'] and 'traceback_object' in repr(q.w.it.describe(q.st, e.data['pack'].pos[0]) if hasattr(q.w.it, 'describe') else atoms(e.data['pack'].pos[0], q.st)) for e in texts)
            else:
                ok = any(q.st.facts.get(('none', e.data['result'])) for e in texts)
            ctx.check(ok, 'field', FI, '%s: the traceback of its exception is missing or another one' % what, q)
    else:
        want.update(exception_type=None, exception_message=None, traceback=None)
    content(ctx, 'field', what, FI, p, rec, want)
    for q, x in p.eval('REC.get("time")', REC=rec):
        made = [e.data['pack'] for e in q.events('call') if e.data['result'] == x]
        ctx.check(CREATED in atoms(x, q.st) or any(CREATED in atoms(m, q.st) for m in made), 'field', FI, '%s: the time of the record is not that of the record of the logging module' % what, q)
    calls = p.calls(MESSAGE)
    done = [e for e in calls if e.data['raised'] is None]
    if done:
        text = done[-1].data['result']
        for q, empty in p.decide('not T', T=text):
            if not empty:
                for q2, same in q.decide('"message" in REC and REC["message"] is T', REC=rec, T=text):
                    ctx.check(same, 'message', FI, '%s: the message of the record is not the text of the record of the logging module' % what, q2)
    else:
        for q, ok in p.decide('"message" in REC and isinstance(REC["message"], str)', REC=rec):
            ctx.check(ok, 'message', FI, '%s: a message that cannot be formatted is not replaced by a text' % what, q)
