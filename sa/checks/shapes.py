"""Signatures of the callables that are given to the library."""
import itertools

from .decor import *
from .process import engine_world
from .namespace import TRY

SM = 'polog/core/utils/signature_matcher.py:SignatureMatcher'
SETUP = '''
from polog import log, handle_log, config, field, file_writer
from polog.handlers.smtp.sender import SMTP_sender
from polog.core.utils.signature_matcher import SignatureMatcher
calls = []
def ok(record):
    return None
def f():
    return None
class Data:
    def __init__(self, function):
        self.get_data = function
'''
# what to do with the callable X -> how the library can later call it
ENTRIES = {
    'config.add_handlers(X)': 'config.add_handlers(X)',
    'config.add_handlers(name=X)': 'config.add_handlers(name=X)',
    'config.add_handlers({"a.b": X})': 'config.add_handlers({"a.b": X})',
    'log(handlers=[X])': 'log(handlers=[X])(f)',
    'field(X)': 'field(X)',
    'field(..., converter=X)': 'field(ok, converter=X)',
    'config.add_fields': 'config.add_fields(name=Data(X))',
    'config.add_engine_fields': 'config.add_engine_fields(name=Data(X))',
    'file_writer(formatter=X)': 'file_writer("/file.log", formatter=X)',
    'file_writer(filter=X)': 'file_writer("/file.log", filter=X)',
    'file_writer(alt=X)': 'file_writer("/file.log", alt=X)',
    'SMTP_sender(text_assembler=X)': 'SMTP_sender("a", "b", "c", "d", text_assembler=X)',
    'SMTP_sender(subject_assembler=X)': 'SMTP_sender("a", "b", "c", "d", subject_assembler=X)',
}
KINDS = {'a': ('po', False), 'b': ('po', True), 'c': ('pk', False), 'd': ('pk', True), '*': ('vp', True), 'k': ('ko', False), 'l': ('ko', True), '~': ('vk', True)}
ORDER = {'po': 0, 'pk': 1, 'vp': 2, 'ko': 3, 'vk': 4}


def shapes(n):
    """every list of at most n parameters the language allows"""
    for k in range(n + 1):
        for ps in itertools.product(KINDS, repeat=k):
            ks = [ORDER[KINDS[p][0]] for p in ps]
            if ks != sorted(ks) or ps.count('*') > 1 or ps.count('~') > 1:
                continue
            plain = [KINDS[p][1] for p in ps if KINDS[p][0] in ('po', 'pk')]
            if plain != sorted(plain):
                continue
            yield ps


def source(ps, self_=False):
    out, po = [], False
    names = []
    if self_:
        names.append('self')
    star = False
    for i, p in enumerate(ps):
        k, d = KINDS[p]
        if k != 'po' and po:
            names.append('/')
            po = False
        if k == 'po':
            po = True
        if k == 'ko' and not star:
            if '*' not in ps:
                names.append('*')
            star = True
        names.append('*args' if k == 'vp' else '**kwargs' if k == 'vk' else 'p%d' % i + ('=DEFAULT' if d else ''))
    if po:
        names.append('/')
    return ', '.join(names)


def fits(ps):
    """can be called with one positional argument"""
    plain = [p for p in ps if KINDS[p][0] in ('po', 'pk')]
    return 'k' not in ps and len([p for p in plain if not KINDS[p][1]]) <= 1 and (bool(plain) or '*' in ps)


def c33(ctx):
    w = engine_world(ctx, UserPolicy(raises=()), fixed={'full_unlog': FALSE, 'suppress_by_default': FALSE, 'deduplicate_errors': FALSE})
    (base,) = w.client(SETUP, **binds())
    forms = {
        'a function': lambda ps: 'def X(%s):\n    calls.append(1)\n' % source(ps),
        'a method': lambda ps: 'class K:\n    def m(%s):\n        calls.append(1)\nX = K().m\n' % source(ps, True) if ps[:1] != ('a',) and ps[:1] != ('b',) else None,
        'a callable object': lambda ps: 'class K:\n    def __call__(%s):\n        calls.append(1)\nX = K()\n' % source(ps, True) if ps[:1] != ('a',) and ps[:1] != ('b',) else None,
        'a static method': lambda ps: 'class K:\n    @staticmethod\n    def m(%s):\n        calls.append(1)\nX = K.m\n' % source(ps),
        'a class': lambda ps: 'class X:\n    def __init__(%s):\n        calls.append(1)\n' % source(ps, True) if ps[:1] != ('a',) and ps[:1] != ('b',) else None,
    }
    dflt = Sym('DEFAULT', {'user'})
    w.base.freeze()
    jobs = []
    for ps in shapes(3 if ctx.tier == 'thorough' else 3):
        for fi, (form, make) in enumerate(forms.items()):
            src = make(ps)
            if src is not None:
                jobs.append((ps, form, src))
    def one(job):
        ps, form, src = job
        for e, code in ENTRIES.items():
            if form != 'a function' and e not in ('config.add_handlers(X)', 'file_writer(filter=X)', 'field(X)') and ctx.tier != 'thorough':
                continue
            text = '%s with the parameters (%s) given to %s' % (form, source(ps), e)
            for p in base.run(src + 'n = len(config.get_handlers())\n' + TRY % code + 'm = len(config.get_handlers())\n', DEFAULT=dflt):
                if not ctx.check(p.exc is None, 'total', SM, '%s: %s' % (text, p.show_exc()), p):
                    continue
                refused = p.var('raised') != NONE
                if ps in (('a',), ('c',)):
                    ctx.check(not refused, 'accepted', SM, '%s is refused' % text, p)
                if not refused:
                    for q in p.run('again = None\ntry:\n    X(1)\nexcept TypeError as e:\n    again = e\n'):
                        ctx.check(q.exc is None and q.var('again') == NONE and fits(ps), 'callable-with-one-argument', SM, '%s is accepted, but every call of it with a record fails' % text, q)
                else:
                    ctx.check(p.var('n') == p.var('m'), 'no-effect', SM, '%s is refused but registered' % text, p)
    ctx.spread(jobs, one)
    # objects that cannot be called at all
    for e, code in ENTRIES.items():
        for v in (Const(5), Const(''), TupleV([])):
            if e.startswith('log(') and v == Const(''):
                continue
            for p in base.run('n = len(config.get_handlers())\n' + TRY % code + 'm = len(config.get_handlers())\n', X=v):
                ctx.check(p.exc is None and p.var('raised') != NONE and p.var('n') == p.var('m'), 'not-callable', SM, '%r given to %s is accepted' % (v, e), p)
    for r, n in (('accepted', 20), ('callable-with-one-argument', 20), ('no-effect', 100), ('not-callable', 20)):
        ctx.floor(r, n)
