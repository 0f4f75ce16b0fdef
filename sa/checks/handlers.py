"""The handlers shipped with the library: filters and alternatives, mail, memory."""
from .process import *

BH = 'polog/handlers/abstract/base.py:BaseHandler'
SM = 'polog/handlers/smtp/sender.py:SMTP_sender'
SW = 'polog/handlers/smtp/smtp_dependency_wrapper.py:SMTPDependencyWrapper'
MS = 'polog/handlers/memory/saver.py:memory_saver'
FILTER = Sym('filter', {'user', 'callable', 'function'})
ALTER = Sym('alternative', {'user', 'callable', 'function'})
CONTENT = Sym('content_maker', {'user', 'callable', 'function'})
DO = Sym('action', {'user', 'callable', 'function'})
SUCC = Sym('success', {'bool', 'notnone'})
BDEFS = HDEFS + '''
from polog.handlers.abstract.base import BaseHandler
from polog.handlers.file.writer import file_writer
from polog.handlers.smtp.sender import SMTP_sender
box = []
def keep(record):
    box.append(record)
config.add_handlers(keep)
def flt(record):
    return FILTER(record)
def alt(record):
    return ALTER(record)
def content(record):
    return CONTENT(record)
class Own(BaseHandler):
    def get_content(self, record):
        return CONTENT(record)
    def do(self, c):
        return DO(c)
class OwnInit(BaseHandler):
    input_proves = {'data': lambda x: x != 'bad'}
    def __init__(self, data, only_errors=False, filter=None, alt=None):
        super().__init__(only_errors=only_errors, filter=filter, alt=alt)
        self.do_input_proves(data=data)
        self.data = data
    def get_content(self, record):
        return CONTENT(record)
    def do(self, c):
        return DO(c)
class Out:
    def write(self, x):
        return DO(x)
    def read(self):
        pass
    def close(self):
        pass
    def flush(self):
        pass
out = Out()
class Mail:
    def __init__(self, *a):
        pass
    def send(self, message):
        return DO(message)
'''
RULES = '''
class RuleNone(BaseHandler):
    def __init__(self, data, only_errors=False, filter=None, alt=None):
        super().__init__(only_errors=only_errors, filter=filter, alt=alt)
        self.do_input_proves(data=data)
class RuleA(RuleNone):
    input_proves = {'data': lambda x: x == 'a'}
class RuleB(RuleNone):
    input_proves = {'data': lambda x: x == 'b'}
'''
MAKERS = {
    'own handler': 'Own(%s)',
    'own handler with arguments': 'OwnInit("good", %s)',
    'file_writer': 'file_writer(out, formatter=content, %s)',
    'SMTP_sender': 'SMTP_sender("a", "b", "c", "d", text_assembler=content, smtp_wrapper=Mail, %s)',
}
RECORDS = {
    'manual record': ('handle_log(MSG)', 'True'),
    'manual record with a success flag': ('handle_log(MSG, success=SUCC)', 'SUCC'),
    'record of an exception': ('handle_log(MSG, exception=ValueError("x"))', 'False'),
    'automatic record': ('try:\n    log(MSG)(f)()\nexcept Exception:\n    pass', None),
}


FILES = """
class File:
    def write(self, text):
        return USER(text)
    def read(self):
        return USER()
    def close(self):
        return USER()
    def flush(self):
        return USER()
class NoWrite:
    def read(self):
        return USER()
    def close(self):
        return USER()
class NoClose:
    def read(self):
        return USER()
    def write(self, text):
        return USER()
class NotCallable(File):
    write = 5
"""
FILE_BAD = ['File(), %s=%s' % (k, x) for k, xs in (('forced_flush', ('1', '0', 'None', '"yes"')), ('separator', ('None', '5', '[]', 'b"x"')), ('formatter', ('5', '"x"', 'lambda: 1', 'lambda a, b: 1')), ('rotation', ('5', '[]', 'True'))) for x in xs]
FILE_BAD += ['NoWrite()', 'NoClose()', 'NotCallable()', '5', 'None', 'b"name"', '["name"]', 'object()', 'File(), File()']
FILE_GOOD = ['', 'File()', 'File(), forced_flush=False', 'File(), forced_flush=True, separator="|", rotation=None, formatter=None', 'File(), formatter=lambda x: "line"', 'File(), separator=""']


def bbinds(**kw):
    return hbinds(FILTER=FILTER, ALTER=ALTER, CONTENT=CONTENT, DO=DO, SUCC=SUCC, **kw)


def c18(ctx):
    pol = UserPolicy(raises=('Exception',), extra={FILTER: ('Exception',), CONTENT: ('Exception',), DO: ('Exception',), ALTER: ()})
    w = engine_world(ctx, pol, fixed={'deduplicate_errors': FALSE, 'suppress_by_default': FALSE, 'silent_internal_exceptions': FALSE})
    recs = []
    for name, (src, succ) in RECORDS.items():
        for p in w.client(BDEFS + src + '\nrec = box[0]\n', **bbinds()):
            if not ctx.check(p.exc is None, 'accepted', BH, '%s: %s' % (name, p.show_exc()), p):
                continue
            s = succ
            if s is None:
                s = 'False' if p.calls(USER)[0].data['raised'] is not None else 'True'
            recs.append((name, p, s))
    for mk, maker in MAKERS.items():
        for oe in ('', 'only_errors=True, ', 'only_errors=False, '):
            for fl in ('', 'filter=flt, '):
                for al in ('', 'alt=alt, '):
                    args = oe + fl + al
                    for name, p0, succ in recs:
                        k0 = len(p0.events())
                        for p in p0.run('h = %s\n' % (maker % args) + CALL % 'res = h(rec)'):
                            deliver(ctx, p, k0, mk, args, name, succ, 'True' in oe, bool(fl), bool(al))
    # the arguments are validated
    rec = recs[0][1]
    bad = ['only_errors=%s' % x for x in ('1', '0', 'None', '"yes"', '[]')]
    bad += ['%s=%s' % (k, x) for k in ('filter', 'alt') for x in ('1', '0', 'False', '"name"', '[]', 'lambda: True', 'lambda a, b: True')]
    for mk, maker in MAKERS.items():
        for b in bad:
            for p in rec.run('ok = False\ntry:\n    h = %s\nexcept ValueError:\n    ok = True\n' % (maker % b)):
                ctx.check(p.exc is None and p.var('ok') == TRUE, 'validated', BH + '.do_input_proves', '%s: %s is not refused with a ValueError' % (mk, b), p)
        for g in ('', 'only_errors=True', 'only_errors=False, filter=None, alt=None', 'filter=flt, alt=alt', 'alt=Own()', 'filter=lambda x: True'):
            for p in rec.run('h = %s\n' % (maker % g)):
                ctx.check(p.exc is None, 'validated', BH + '.do_input_proves', '%s: (%s) is refused: %s' % (mk, g, p.show_exc()), p)
    for src, want in (('OwnInit("bad")', True), ('OwnInit("other")', False), ('OwnInit("good", only_errors=3)', True)):
        for p in rec.run('ok = False\ntry:\n    h = %s\nexcept ValueError:\n    ok = True\n' % src):
            ctx.check(p.exc is None and p.var('ok') == Const(want), 'validated', BH + '.do_input_proves', '%s is %s' % (src, 'accepted' if want else 'refused'), p)
    # rules for the arguments of one class of handlers do not touch another
    import itertools
    for order in itertools.permutations(('RuleA("a")', 'RuleB("b")', 'RuleNone(7)')):
        for p in rec.run(RULES):
            for src, want in [(x, False) for x in order] + [('RuleA("b")', True), ('RuleB("a")', True), ('RuleNone("a")', False), ('RuleA("a", only_errors=1)', True), ('RuleNone(1, alt=5)', True)]:
                ps = p.run('ok = False\ntry:\n    h = %s\nexcept ValueError:\n    ok = True\n' % src)
                for q in ps:
                    ctx.check(q.exc is None and q.var('ok') == Const(want), 'validated', BH + '.do_input_proves', 'three classes of handlers with rules of their own, made in the order %s: %s is %s' % (', '.join(order), src, 'accepted' if want else 'refused'), q)
                p = ps[-1]
    for b in FILE_BAD:
        for p in rec.run(FILES + 'ok = False\ntry:\n    h = file_writer(%s)\nexcept ValueError:\n    ok = True\n' % b):
            ctx.check(p.exc is None and p.var('ok') == TRUE, 'validated', 'polog/handlers/file/writer.py:file_writer', 'file_writer(%s) is not refused with a ValueError' % b, p)
    for g in FILE_GOOD:
        for p in rec.run(FILES + 'h = file_writer(%s)\n' % g):
            ctx.check(p.exc is None, 'validated', 'polog/handlers/file/writer.py:file_writer', 'file_writer(%s) is refused: %s' % (g, p.show_exc()), p)
    for r, n in (('one-outcome', 500), ('filtered', 300), ('content', 200), ('failure-to-alt', 100), ('validated', 60)):
        ctx.floor(r, n)


def deliver(ctx, p, k0, mk, args, name, succ, only_errors, has_filter, has_alt):
    t = '%s(%s), %s' % (mk, args, name)
    evs = [e for e in p.events()[k0:] if e.kind == 'call' and e.data['callee'] in (FILTER, ALTER, CONTENT, DO)]
    by = lambda c: [e for e in evs if e.data['callee'] == c]
    fs, al, co, do = by(FILTER), by(ALTER), by(CONTENT), by(DO)
    rec = p.var('rec')
    if not ctx.check(p.exc is None and p.var('raised') == NONE, 'contained', BH, '%s: raises %s' % (t, p.show_exc() or p.var('raised')), p):
        return
    one = Pack((rec,), {}, ())
    ctx.check(len(fs) <= 1 and len(co) <= 1 and len(do) <= 1 and all(e.data['pack'] == one for e in fs + co), 'one-outcome', BH, '%s: the filter, the content and the action are not asked once, for this record' % t, p)
    failed = any(e.data['raised'] is not None for e in fs + co + do)
    done = bool(do) and not failed
    ctx.check(len(al) == (1 if has_alt and not done else 0), 'one-outcome', BH, '%s: the record is %s and the alternative is called %d times' % (t, 'processed' if done else 'not processed', len(al)), p)
    ctx.check(all(e.data['pack'] == one for e in al), 'one-outcome', BH, '%s: the alternative gets another record' % t, p)
    if do:
        ctx.check(co and co[0].data['raised'] is None and (mk == 'SMTP_sender' or do[0].data['pack'].pos == (co[0].data['result'],)), 'content', BH, '%s: the action gets something else than the content of the record' % t, p)
    if failed:
        ctx.check(not has_alt or len(al) == 1, 'failure-to-alt', BH, '%s: after a failure the alternative is called %d times' % (t, len(al)), p)
    for q, s in p.decide(succ):
        if only_errors and s:
            ctx.check(not do and not co, 'filtered', BH + '.to_do_or_not_to_do', '%s: a successful event is processed by a handler for errors' % t, q)
            continue
        if has_filter:
            if not ctx.check(len(fs) == 1, 'filtered', BH + '.to_do_or_not_to_do', '%s: the filter is not asked' % t, q):
                continue
            if fs[0].data['raised'] is not None:
                ctx.check(not do, 'filtered', BH, '%s: the filter fails and the record is processed' % t, q)
                continue
            for r, v in q.decide('V is False', V=fs[0].data['result']):
                if v:
                    ctx.check(not do and not co, 'filtered', BH + '.to_do_or_not_to_do', '%s: a record refused by the filter is processed' % t, r)
                    continue
                for r2, v2 in r.decide('V is True', V=fs[0].data['result']):
                    if v2:
                        ctx.check(co, 'filtered', BH + '.to_do_or_not_to_do', '%s: a record passed by the filter is not processed' % t, r2)
        else:
            ctx.check(co, 'filtered', BH + '.to_do_or_not_to_do', '%s: the record is not processed' % t, q)


# ---------------------------------------------------------------- mail
STR = lambda n: Sym(n, {'str', 'notnone'})
FROM, PW, SRV, TO = STR('email_from'), STR('password'), STR('smtp_server'), STR('email_to')
PORT = Sym('port', {'int', 'notnone'})
TEXT = Sym('text_assembler', {'user', 'callable', 'function'})
SUBJ = Sym('subject_assembler', {'user', 'callable', 'function'})
CONNECT = {'smtplib.SMTP_SSL', 'smtplib.SMTP'}
CONN = 'smtplib.SMTP_SSL.'
MIME = {'email.mime.text.MIMEText'}
MDEFS = BDEFS + '''
def text(record):
    return TEXT(record)
def subject(record):
    return SUBJ(record)
'''


class MailPolicy(UserPolicy):
    faulty = True

    def may_raise(self, it, st, callee, name, pack):
        if self.faulty and (name in CONNECT or (name.startswith(CONN) and name[len(CONN):] in ('login', 'sendmail', 'send_message', 'quit', 'close')) or callee in (TEXT, SUBJ)):
            return ('Exception',)
        return super().may_raise(it, st, callee, name, pack)

    def result(self, it, st, callee, name, pack):
        if callee in (TEXT, SUBJ):
            return Sym(('res', callee), {'str', 'notnone'})
        if name in CONNECT:
            return it.alloc(st, Obj('ext', cls=ExtV('smtplib.SMTP_SSL'), meta={'pack': pack}))
        return None


def c19(ctx):
    pol = MailPolicy(raises=('Exception',))
    w = engine_world(ctx, pol, fixed={'deduplicate_errors': FALSE, 'suppress_by_default': FALSE, 'silent_internal_exceptions': FALSE})
    b = bbinds(FROM=FROM, PW=PW, SRV=SRV, TO=TO, PORT=PORT, TEXT=TEXT, SUBJ=SUBJ)
    args = {'': 465, 'port=PORT, ': PORT, 'text_assembler=text, ': 465, 'subject_assembler=subject, ': 465, 'text_assembler=text, subject_assembler=subject, is_html=True, ': 465, 'is_html=True, alt=alt, ': 465}
    for name, (src, succ) in RECORDS.items():
        for p0 in w.client(MDEFS + src + '\nrec = box[0]\n', **b):
            if not ctx.check(p0.exc is None, 'accepted', SM, '%s: %s' % (name, p0.show_exc()), p0):
                continue
            for a, port in args.items():
                for p in p0.run('h = SMTP_sender(FROM, PW, SRV, TO, %salt=alt)\n' % a.replace('alt=alt, ', '')):
                    if not ctx.check(p.exc is None, 'accepted', SM, 'SMTP_sender(%s) is refused: %s' % (a, p.show_exc()), p):
                        continue
                    k0 = len(p.events())
                    for q in p.run(CALL % 'h(rec)'):
                        mail(ctx, q, k0, 'SMTP_sender(%s), %s' % (a, name), port if isinstance(port, Sym) else Const(port), 'text' in a, 'subject' in a, 'html' in a, succ or str(p0.calls(USER)[0].data['raised'] is None))
    # the password leaves the handler for the login of the session only
    for p in w.client(MDEFS + 'h = SMTP_sender(FROM, PW, SRV, TO, port=PORT)\nx = repr(h) + str(h)\n', **b):
        ctx.check(p.exc is None and PW not in atoms(p.var('x'), p.st), 'secret', SM + '.__repr__', 'the text of the handler shows the password', p)
    for bad in ('FROM, PW, SRV, None', 'FROM, PW, 1, TO', 'FROM, None, SRV, TO', 'None, PW, SRV, TO', 'FROM, PW, SRV, TO, port="465"', 'FROM, PW, SRV, TO, is_html=1', 'FROM, PW, SRV, TO, text_assembler="x"', 'FROM, PW, SRV, TO, subject_assembler=lambda: 1', 'FROM, PW, SRV, TO, text_assembler=lambda a, b: 1', 'FROM, PW, SRV, TO, text_assembler=""', 'FROM, PW, SRV, TO, text_assembler=0', 'FROM, PW, SRV, TO, subject_assembler=False', 'FROM, PW, SRV, TO, subject_assembler=[]'):
        for p in w.client(MDEFS + 'ok = False\ntry:\n    h = SMTP_sender(%s)\nexcept ValueError:\n    ok = True\n' % bad, **b):
            ctx.check(p.exc is None and p.var('ok') == TRUE, 'validated', SM + '.__init__', 'SMTP_sender(%s) is not refused with a ValueError' % bad, p)
    for r, n in (('session', 100), ('addressed', 60), ('letter', 60), ('closed', 60), ('failure-to-alt', 60), ('secret', 60), ('fields-listed', 5)):
        ctx.floor(r, n)


def mail(ctx, q, k0, t, port, own_text, own_subject, html, succ):
    evs = [e for e in q.events()[k0:] if e.kind == 'call']
    if not ctx.check(q.exc is None and q.var('raised') == NONE, 'contained', SM, '%s: raises %s' % (t, q.show_exc() or q.var('raised')), q):
        return
    opens = [e for e in evs if e.data['name'] in CONNECT]
    meths = [e for e in evs if e.data['name'].startswith(CONN)]
    ctx.check(len(opens) <= 1 and all(e.data['name'] == 'smtplib.SMTP_SSL' and arg2(e, 0, 'host') == SRV and arg2(e, 1, 'port') == port for e in opens), 'session', SW, '%s: the session is not one with the given server and port over an encrypted connection' % t, q)
    conn = opens[0].data['result'] if opens and opens[0].data['raised'] is None else None
    seq = [(e.data['name'][len(CONN):], e.data['raised'] is None) for e in meths]
    ctx.check(all(e.data['callee'].base == conn for e in meths), 'session', SW, '%s: another session is used' % t, q)
    names = [n for n, ok in seq]
    sends = [e for e in meths if e.data['name'][len(CONN):] in ('sendmail', 'send_message')]
    logins = [e for e in meths if e.data['name'][len(CONN):] == 'login']
    ctx.check(len(sends) <= 1 and len(logins) <= 1, 'session', SW, '%s: the letter is sent %d times' % (t, len(sends)), q)
    ctx.check(all(e.data['pack'].pos == (FROM, PW) for e in logins), 'session', SW, '%s: the login is not that of the sender' % t, q)
    if sends:
        ctx.check('login' in names and names.index('login') < names.index(sends[0].data['name'][len(CONN):]) and seq[names.index('login')][1], 'session', SW, '%s: the letter is sent without a login' % t, q)
    done = bool(sends) and sends[0].data['raised'] is None
    if conn is not None:
        closes = [i for i, (n, ok) in enumerate(seq) if n in ('quit', 'close', '__exit__')]
        ctx.check(closes and closes[-1] == len(seq) - 1, 'closed', SW, '%s: the session stays open' % t, q)
        kept = [e for e in q.events()[k0:] if e.kind in ('store', 'mutate') and conn in (e.data.get('value'), e.data.get('key')) and e.data['obj'].id < conn.id and q.st.obj(e.data['obj']).kind in ('inst', 'dict', 'list', 'class', 'module')]
        ctx.check(not [e for e in kept if e.data['obj'] != q.m], 'closed', SW, '%s: the session is kept in an object shared by threads' % t, q)
    al = [e for e in evs if e.data['callee'] == ALTER]
    ctx.check(len(al) == (0 if done else 1) and all(e.data['pack'].pos == (q.var('rec'),) for e in al), 'failure-to-alt', SM, '%s: the letter is %s and the alternative is called %d times' % (t, 'sent' if done else 'not sent', len(al)), q)
    if not any(e.data['raised'] is not None for e in evs):
        ctx.check(done, 'session', SM, '%s: nothing fails and no letter is sent' % t, q)
    mimes = [e for e in evs if e.data['name'] in MIME]
    for e in sends:
        if not ctx.check(len(mimes) == 1, 'letter', SM + '.get_content', '%s: %d letters are made' % (t, len(mimes)), q):
            continue
        m = mimes[0].data['result']
        pk = e.data['pack']
        if e.data['name'].endswith('sendmail'):
            ctx.check(arg2(e, 0, 'from_addr') == FROM and flat(q, arg2(e, 1, 'to_addrs')) == [TO], 'addressed', SW, '%s: the letter goes to %r' % (t, flat(q, arg2(e, 1, 'to_addrs'))), q)
            body = [c for c in evs if c.data['result'] == arg2(e, 2, 'msg') and isinstance(c.data['callee'], MethV)]
            ctx.check(body and body[0].data['callee'].base == m and body[0].data['callee'].name in ('as_string', 'as_bytes', '__str__'), 'letter', SW, '%s: something else than the letter is sent' % t, q)
        else:
            ctx.check(arg2(e, 0, 'msg') == m, 'letter', SW, '%s: something else than the letter is sent' % t, q)
        heads = {}
        for c in evs:
            if isinstance(c.data['callee'], MethV) and c.data['callee'].base == m and c.data['callee'].name in ('__setitem__', 'add_header'):
                heads.setdefault(c.data['pack'].pos[0], []).append(c.data['pack'].pos[1])
        ctx.check(heads.get(Const('From')) == [FROM] and heads.get(Const('To')) == [TO], 'addressed', SM + '.get_content', '%s: the headers of the letter are %r' % (t, heads), q)
        sub = arg2(mimes[0], 1, '_subtype') or Const('plain')
        ctx.check(sub == Const('html' if html else 'plain'), 'letter', SM + '.get_content', '%s: the kind of the letter is %r' % (t, sub), q)
        subj = heads.get(Const('Subject'), [None])
        texts = [c for c in evs if c.data['callee'] == TEXT]
        subjects = [c for c in evs if c.data['callee'] == SUBJ]
        ctx.check(all(c.data['pack'].pos == (q.var('rec'),) for c in texts + subjects) and len(texts) == own_text and len(subjects) == own_subject, 'letter', SM, '%s: the assemblers are not asked once, for this record' % t, q)
        if own_subject and subjects:
            ctx.check(subj == [subjects[0].data['result']], 'letter', SM + '.get_subject', '%s: the subject is not that of the assembler' % t, q)
        elif len(subj) == 1:
            for r, s in q.decide(succ):
                word = {'True': 'Success', 'False': 'Error'}[str(s)]
                if 'manual record' in t and 'flag' not in t:
                    word = None
                if word:
                    ctx.check(isinstance(subj[0], Const) and isinstance(subj[0].v, str) and word.lower() in subj[0].v.lower() and ('Error' if s else 'Success').lower() not in subj[0].v.lower(), 'letter', SM + '.get_subject', '%s: the subject of a record with success=%s is %r' % (t, s, subj[0]), r)
                else:
                    ctx.check(isinstance(subj[0], Const) and isinstance(subj[0].v, str) and subj[0].v and 'error' not in subj[0].v.lower() and 'success' not in subj[0].v.lower(), 'letter', SM + '.get_subject', '%s: the subject of a record without an outcome is %r' % (t, subj[0]), r)
        body = arg2(mimes[0], 0, '_text')
        if own_text and texts:
            ctx.check(body == texts[0].data['result'], 'letter', SM + '.get_text', '%s: the text is not that of the assembler' % t, q)
        elif not own_text:
            for r in q.run('want = [str(k) + " = " + str(rec[k]) for k in rec]\n'):
                parts = r.st.obj(r.var('want')).items
                missing = [x for x in parts if not contains_text(body, x)]
                ctx.check(r.exc is None and parts and not missing, 'fields-listed', SM + '.get_standart_text', '%s: the text of the letter lacks %r' % (t, missing[:2]), r)
    out = [e for e in evs if e not in logins]
    leak = [e for e in out if PW in atoms(e.data['pack'], q.st, depth=3) and not (isinstance(e.data['callee'], Ref)) and q.var('h') not in e.data['pack'].pos]
    ctx.check(not leak, 'secret', SM, '%s: the password flows into %s' % (t, leak[0].data['name'] if leak else ''), q)


def pieces(v):
    v = v.name[1:] if isinstance(v, Sym) and v.name[0] == 'fstr' else (v,)
    return [x.v if isinstance(x, Const) and isinstance(x.v, str) else x for x in v]


def contains_text(body, part):
    """the string term `part` occurs literally in the term `body` (as whole lines)"""
    def canon(v):
        return ''.join(x if isinstance(x, str) else '\x00%r\x01' % (x,) for x in pieces(v))
    return ('\n' + canon(part) + '\n') in ('\n' + canon(body) + '\n')


def arg2(e, i, name):
    pk = e.data['pack']
    return pk.pos[i] if len(pk.pos) > i else pk.kw.get(name)


def flat(q, v):
    if isinstance(v, TupleV):
        return list(v.items)
    if isinstance(v, Ref) and q.st.obj(v).kind in ('list', 'set'):
        return list(q.st.obj(v).items)
    return [v]
