"""The file handler: locking, rotation, rules of rotation."""
import re

from .process import *

FW = 'polog/handlers/file/writer.py:file_writer'
FD = 'polog/handlers/file/file_dependency_wrapper.py:FileDependencyWrapper'
FR = 'polog/handlers/file/rotation/rotator.py:Rotator'
FMT = Sym('formatter', {'user', 'callable', 'function'})
ALT = Sym('alternative', {'user', 'callable', 'function'})
REC = Sym('some_record', {'object', 'notnone'})
STAT = Sym('stat_of_the_log', {'object', 'notnone'})
SIZE = Sym(('attr', STAT, 'st_size'), {'int', 'nonneg'})
OPENS = {'builtins.open', 'io.open', 'codecs.open'}
MOVES = {'shutil.move', 'os.rename', 'os.replace', 'pathlib.Path.rename', 'pathlib.Path.replace'}
SIZES = {'os.stat', 'os.path.getsize', 'os.fstat', 'pathlib.Path.stat'}
MKDIRS = {'os.makedirs', 'os.mkdir', 'pathlib.Path.mkdir'}
FLOCKS = {'fcntl.flock', 'fcntl.lockf'}
FILE = 'io.TextIOWrapper.'
DISK = OPENS | MOVES | SIZES | MKDIRS | {FILE + x for x in ('write', 'writelines', 'flush', 'close')}
FDEFS = HDEFS + '''
from polog.handlers.file.writer import file_writer
def fmt(record):
    return FMT(record)
def alt(record):
    return ALT(record)
'''


class FilePolicy(UserPolicy):
    """the file system as the standard library documents it; `faults`: what may fail"""
    faults = ()

    def may_raise(self, it, st, callee, name, pack):
        if name in self.faults or (self.faults and meth(callee) in ('mkdir', 'makedirs')) or (callee == FMT and FMT in self.faults):
            return ('Exception',)
        return ()

    def result(self, it, st, callee, name, pack):
        if name in OPENS:
            return it.alloc(st, Obj('ext', cls=ExtV('io.TextIOWrapper'), meta={'pack': pack}))
        if name == 'os.path.getsize':
            return SIZE
        if name in SIZES:
            return STAT
        if name == FILE + 'fileno':
            return Sym(('fd', callee.base), {'int'})
        return None


class Op:
    def __init__(self, e, kind, **kw):
        self.e, self.kind, self.ok, self.locks = e, kind, e.data.get('raised') is None, set(e.locks)
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s%s' % (self.kind, '' if self.ok else ' (fails)')


def meth(c):
    """name of the method of an opaque value that is called"""
    return c.name[2] if isinstance(c, Sym) and c.name[0] == 'attr' else c.name if isinstance(c, MethV) else None


def arg(pack, i, name, default=None):
    return pack.pos[i] if len(pack.pos) > i else pack.kw.get(name, default)


def deep_mkdir(n, pk):
    """why a creation of a directory does not create every missing one, or may fail because it is there already (None: it is fine, or not understood)"""
    if pk.dstar or not all(isinstance(x, (Const, Sym)) for x in pk.pos):
        return None
    if n == 'os.mkdir':
        return 'missing parents are not created'
    if n == 'pathlib.Path.mkdir' or n.endswith('.parent.mkdir') or n == 'mkdir':
        parents, there = arg(pk, 1, 'parents', Const(False)), arg(pk, 2, 'exist_ok', Const(False))
    elif n == 'os.makedirs':
        parents, there = Const(True), arg(pk, 2, 'exist_ok', Const(False))
    else:
        return None
    if isinstance(parents, Const) and not parents.v:
        return 'missing parents are not created'
    if isinstance(there, Const) and not there.v:
        return 'it fails if the directory has appeared in the meantime'
    return None


def file_ops(p, k0=0):
    """what a path does with files, in order"""
    out = []
    fds = {}
    for e in p.events()[k0:]:
        if e.kind in ('acquire', 'release'):
            e.data.setdefault('raised', None)
            out.append(Op(e, e.kind, lock=e.data['lock']))
        if e.kind != 'call':
            continue
        n, pk, c = e.data['name'], e.data['pack'], e.data['callee']
        if n in OPENS:
            out.append(Op(e, 'open', path=arg(pk, 0, 'file'), mode=arg(pk, 1, 'mode', Const('r')), handle=e.data['result'], encoding=pk.kw.get('encoding') or arg(pk, 3, 'encoding', NONE)))
        elif n in MOVES:
            if n.startswith('pathlib'):
                out.append(Op(e, 'move', src=c.base, dst=arg(pk, 0, 'target')))
            else:
                out.append(Op(e, 'move', src=arg(pk, 0, 'src'), dst=arg(pk, 1, 'dst')))
        elif n in SIZES:
            out.append(Op(e, 'size', path=c.base if n.startswith('pathlib') else arg(pk, 0, 'path', arg(pk, 0, 'filename'))))
        elif n in MKDIRS or meth(c) in ('mkdir', 'makedirs'):
            out.append(Op(e, 'mkdir', deep=deep_mkdir(n if n in MKDIRS else meth(c), pk)))
        elif n in FLOCKS:
            fd, op = pk.pos[0], pk.pos[1]
            h = fd.name[1] if isinstance(fd, Sym) and fd.name[0] == 'fd' else fd
            v = op.v if isinstance(op, Const) else None
            out.append(Op(e, 'flock', handle=h, op='un' if v == 8 else 'ex' if isinstance(v, int) and v & 2 else 'other'))
        elif n.startswith(FILE) and n[len(FILE):] in ('write', 'flush', 'close', 'writelines'):
            kind = n[len(FILE):]
            content = pk.pos[0] if pk.pos else None
            if kind == 'writelines':
                kind = 'write'
                xs = list(p.st.obj(content).items) if isinstance(content, Ref) and p.st.obj(content).kind == 'list' else list(content.items) if isinstance(content, TupleV) else [content]
                content = xs[0] if len(xs) == 1 else content
            out.append(Op(e, kind, handle=c.base, content=content))
        elif n == 'builtins.print' and 'file' in pk.kw:
            out.append(Op(e, 'write', handle=pk.kw['file'], content=pk.pos[0] if len(pk.pos) == 1 and pk.kw.get('end') == Const('') else None))
        elif c == FMT:
            out.append(Op(e, 'format', content=e.data['result'], record=pk.pos[0] if pk.pos else None))
        elif c == ALT:
            out.append(Op(e, 'alt', record=pk.pos[0] if pk.pos else None))
    return out


def file_world(ctx):
    pol = FilePolicy()
    return world(ctx, pol, record=False), pol


def construct(ctx, w, pol, args, must=True, **kw):
    """a handler made with the given arguments -> paths on which it exists"""
    pol.faults = ()
    ps = w.client(FDEFS + 'w = file_writer(%s)\n' % args, **hbinds(FMT=FMT, ALT=ALT, REC=REC, **kw))
    if must:
        for p in ps:
            ctx.check(p.exc is None, 'accepted', FW + '.__init__', 'file_writer(%s) is refused: %s' % (args, p.show_exc()), p)
    return [p for p in ps if p.exc is None]


LOCKTYPES = {"'thread'": {'thread'}, "'file'": {'file'}, "'thread+file'": {'thread', 'file'}, "'file + thread'": {'thread', 'file'}, 'None': set()}


def c15(ctx):
    w, pol = file_world(ctx)
    cases = [('lock_type=%s, ' % k, v) for k, v in LOCKTYPES.items()] + [('', {'thread'})]
    for text, types in cases:
        for rotation in ("rotation='1 kb >> arch', ", ''):
            for flush in ('', 'forced_flush=False, '):
                if flush and (not rotation or ctx.tier == 'quick' and 'thread+' not in text):
                    continue
                args = "'app.log', %s%s%sformatter=fmt" % (text, rotation, flush)
                for p in construct(ctx, w, pol, args):
                    init = file_ops(p)
                    lockfiles = {o.handle: o.path for o in init if o.kind == 'open' and o.path != Const('app.log')}
                    k0 = len(p.events())
                    exists = lambda r: r.id in p.st.base or r.id in p.st.delta
                    pol.faults = DISK | FLOCKS if 'file' in types else DISK
                    for q in p.run('w(REC)\n'):
                        exclusion(ctx, q, file_ops(q, k0), args, types, dict(lockfiles), exists)
                    pol.faults = ()
                    for q in p.run('w(REC)\nw(REC)\n'):
                        exclusion(ctx, q, file_ops(q, k0), args + ' (two records)', types, dict(lockfiles), exists)
    # kinds of locks: any other value is refused
    for bad in ("'threads'", "'thread+thread'", "''", "'  '", "'thread+file+file'", "'thread+memory'", "'file,thread'", 'True', '1', "['thread']", "'THREAD'"):
        for p in construct(ctx, w, pol, "'app.log', lock_type=%s" % bad, must=False) or [None]:
            ctx.check(p is None, 'lock-types', 'polog/handlers/file/locks/double_lock.py:DoubleLock.get_lock_types', 'lock_type=%s is accepted' % bad, p)
    for args in ('lock_type="file"', 'lock_type="thread+file"', 'OUT, lock_type="file"'):
        src = 'class Out:\n    def write(self, x):\n        return USER(x)\n    def read(self):\n        pass\n    def close(self):\n        pass\n    def flush(self):\n        pass\nOUT = Out()\n'
        for p in w.client(FDEFS + src + 'w = file_writer(%s, formatter=fmt)\nw(REC)\n' % args, **hbinds(FMT=FMT, ALT=ALT, REC=REC)):
            ctx.check(p.exc is None and not any(o.kind in ('open', 'flock') for o in file_ops(p)), 'no-file-no-file-lock', FD, 'a handler without a file name uses a lock file or fails: %s' % p.show_exc(), p)
    for r, n in (('excluded', 400), ('released', 200), ('lock-types', 10), ('not-asked', 60)):
        ctx.floor(r, n)


def exclusion(ctx, q, ops, args, types, lockfiles, exists):
    """every access to the log runs under exactly the configured locks, which are then released"""
    held = set()          # lock files locked by this thread
    access = []
    for o in ops:
        if o.kind == 'open' and o.path != Const('app.log'):
            lockfiles[o.handle] = o.path
        elif o.kind == 'flock':
            if o.ok and o.op == 'ex':
                held.add(o.handle)
            elif o.op == 'un':
                held.discard(o.handle)
            if 'thread' in types:
                access.append((o, None))
        if o.kind in ('write', 'flush', 'move') or (o.kind in ('open', 'close') and (getattr(o, 'path', None) == Const('app.log') or (o.kind == 'close' and o.handle not in lockfiles))):
            access.append((o, set(held)))
    common = None
    for o, h in access:
        mine = {l for l in o.locks if exists(l)}
        common = mine if common is None else common & mine
        if 'thread' in types:
            ctx.check(mine and common, 'excluded', where(o.e), 'file_writer(%s): %s runs outside the thread lock that guards the other accesses to the file' % (args, o.kind), q)
        else:
            ctx.check(not (o.kind == 'write' and o.locks), 'not-asked', where(o.e), 'file_writer(%s): the record is written under a thread lock that was switched off' % args, q)
        if h is None:
            continue
        if 'file' in types:
            good = [x for x in h if isinstance(lockfiles.get(x), Const) and lockfiles[x] != Const('app.log')]
            ctx.check(good, 'excluded', where(o.e), 'file_writer(%s): %s runs outside the lock between processes' % (args, o.kind), q)
        else:
            ctx.check(not h and not lockfiles, 'not-asked', where(o.e), 'file_writer(%s): a lock file is used that was not asked for' % args, q)
    ctx.check(len(set(lockfiles.values())) <= 1, 'excluded', FD, 'file_writer(%s): several lock files guard one file' % args, q)
    ctx.check(not q.st.locks, 'released', FD, 'file_writer(%s): a thread lock stays taken' % args, q)
    bad = [o for o in ops if o.kind == 'flock' and o.op == 'un' and not o.ok]
    ctx.check(not held or bad, 'released', FD, 'file_writer(%s): the lock between processes stays taken' % args, q)
    ctx.check(not any(e.kind in ('badrelease', 'deadlock') for e in q.events()), 'released', FD, 'file_writer(%s): a lock is released or taken twice' % args, q)


def c16(ctx):
    w, pol = file_world(ctx)
    FNF = ExtV('builtins.FileNotFoundError')
    for locks in ("lock_type='thread'", "lock_type='thread+file'", "lock_type='file'", 'lock_type=None'):
        for rule, limit in (("rotation='1 kb >> arch'", 1024), ("rotation='300 bytes, 2 kb; 7 mb >> arch'", 300), ("rotation='2 kb; 300 b >> arch'", 300), ('rotation=None', None)):
            for flush in ('forced_flush=True', 'forced_flush=False'):
                if 'file' in locks and (',' in rule or 'False' in flush) or 'thread' not in locks and 'False' in flush:
                    continue
                args = "'app.log', formatter=fmt, alt=alt, %s, %s, %s" % (locks, rule, flush)
                for p in construct(ctx, w, pol, args):
                    first = [o for o in file_ops(p) if o.kind == 'open' and o.path == Const('app.log')]
                    ctx.need(first, 'the file is not opened when the handler is made')
                    ctx.check(len(first) == 1 and appends(first[0]), 'opened', FD + '.get_file_object', 'the file is not opened for appending', p)
                    ctx.check(all(map(lossless, first)), 'every-text', FD + '.get_file_object', 'the file is opened with the encoding %r: lines with other characters cannot be written' % (first[0].encoding,), p)
                    k0 = len(p.events())
                    exists = lambda r: r.id in p.st.base or r.id in p.st.delta
                    pol.faults = DISK | {FMT}
                    for q in p.run('w(REC)\n'):
                        for o in file_ops(q, k0):
                            if o.kind == 'open' and o.path == Const('app.log'):
                                ctx.check(lossless(o), 'every-text', where(o.e), 'after a rotation the file is opened with the encoding %r: lines with other characters cannot be written' % (o.encoding,), q)
                        rotation_path(ctx, q, file_ops(q, k0), args, limit, first[0].handle, 'False' not in flush, locks, exists)
                    pol.faults = ()
    for r, n in (('written-once', 300), ('rotated-iff', 100), ('rotation-order', 30), ('rotation-atomic', 30), ('flushed', 50), ('archive-name', 20)):
        ctx.floor(r, n)


def appends(o):
    return isinstance(o.mode, Const) and 'a' in str(o.mode.v)


def lossless(o):
    """every text can be written: the encoding does not depend on the locale and has all characters"""
    name = str(o.encoding.v).lower().replace('_', '-').replace('utf-', 'utf') if isinstance(o.encoding, Const) else ''
    return isinstance(o.mode, Const) and 'b' in str(o.mode.v) or not isinstance(o.encoding, Const) or name in ('utf8', 'utf8-sig', 'utf16', 'utf32', 'utf16-le', 'utf16-be', 'utf32-le', 'utf32-be', 'u8')


def rotation_path(ctx, q, ops, args, limit, handle, flush, locks, exists):
    cur, opened, closed = handle, {handle}, set()
    moves = [o for o in ops if o.kind == 'move']
    moved = [o for o in moves if o.ok]
    sizes = [o for o in ops if o.kind == 'size']
    writes = [o for o in ops if o.kind == 'write']
    fm = [o for o in ops if o.kind == 'format']
    reop = [o for o in ops if o.kind == 'open' and o.path == Const('app.log')]
    alts = [o for o in ops if o.kind == 'alt']
    ctx.check(q.exc is None, 'written-once', FW, 'file_writer(%s): the handler raises %s' % (args, q.show_exc()), q)
    # the record reaches an open file whatever fails before
    for o in ops:
        if o.kind == 'open' and o.ok and o.path == Const('app.log'):
            opened.add(o.handle)
            cur = o.handle
        elif o.kind == 'close' and o.ok:
            closed.add(o.handle)
        elif o.kind == 'write':
            ctx.check(o.handle in opened and o.handle not in closed, 'open-file', where(o.e), 'file_writer(%s): the record is written to a closed file' % args, q)
            ctx.check(o.handle == cur, 'open-file', where(o.e), 'file_writer(%s): the record is not written to the reopened file' % args, q)
            ctx.check(fm and fm[-1].ok and o.content == fm[-1].content, 'written-once', where(o.e), 'file_writer(%s): what is written is not what the formatter returned' % args, q)
    fmt_ok = len(fm) == 1 and fm[0].ok
    ctx.check(len(fm) == 1 and fm[0].record == REC, 'written-once', FW, 'file_writer(%s): the formatter is called %d times' % (args, len(fm)), q)
    ctx.check(len(writes) == (1 if fmt_ok else 0), 'written-once', FW, 'file_writer(%s): the record is written %d times%s' % (args, len(writes), '' if fmt_ok else ' although the formatter failed'), q)
    ctx.check(not (ops and ops[-1].kind in ('close',) and ops[-1].handle == cur), 'open-file', FW, 'the file is closed', q)
    ctx.check(cur not in closed, 'open-file', FD, 'file_writer(%s): the handler is left with a closed file' % args, q)
    # rotation happens exactly when the size asks for it
    if limit is None:
        ctx.check(not moves, 'rotated-iff', FR, 'the file is rotated without a rule', q)
    elif fmt_ok:
        ctx.check(sizes, 'rotated-iff', FR, 'file_writer(%s): the record is written without a check of the rules' % args, q)
        if sizes and all(o.ok for o in sizes):
            for r, v in q.decide('S >= %d' % limit, S=SIZE):
                ctx.check(bool(moves) == v or (v and not all(o.ok for o in ops[:ops.index(writes[-1]) if writes else None])), 'rotated-iff', FR,
                          'file_writer(%s): the file is %s although its size is %s the limit' % (args, 'rotated' if moves else 'not rotated', 'at least' if v else 'below'), r)
        elif sizes:
            ctx.ok('sizes')
            ctx.check(not moves, 'rotated-iff', FR, 'the file is rotated although its size is unknown', q)
        ctx.check(all(o.path == Const('app.log') for o in sizes), 'rotated-iff', FR, 'the size of another file is read', q)
    if writes:
        i = ops.index(writes[-1])
        ctx.check(all(ops.index(o) < i for o in moves + sizes), 'rotated-iff', FW, 'file_writer(%s): the rotation is checked after the record was written' % args, q)
    if moves:
        ctx.check(len(moved) <= 1, 'rotation-order', FD, 'the file is moved twice', q)
        for o in moves:
            before = ops[:ops.index(o)]
            fl = [x for x in before if x.kind in ('flush', 'close') and x.handle == handle and x.ok]
            ctx.check(fl, 'rotation-order', where(o.e), 'file_writer(%s): the file is moved before its buffer was written out' % args, q)
            ctx.check(o.src == Const('app.log'), 'rotation-order', where(o.e), 'another file is moved', q)
            ctx.check(re.search(r"'arch['/]", deep(o.dst, q.st)), 'archive-name', where(o.e), 'the archive does not lie in the directory of the rule: %r' % (o.dst,), q)
            ctx.check(any(c in deep(o.dst, q.st) for c in CLOCKS | {'uuid.uuid4', 'uuid.uuid1', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'tempfile'}), 'archive-name', where(o.e), 'the name of the archive does not depend on the moment: the next rotation overwrites it', q)
            ctx.check(not coarse(o.dst, q.st), 'archive-name', where(o.e), 'the name of the archive keeps only %s of the moment: two rotations close to each other overwrite each other' % coarse(o.dst, q.st), q)
            # one critical section from the check to the reopening
            if locks != 'lock_type=None':
                sz = [x for x in before if x.kind == 'size']
                if sz:
                    between = ops[ops.index(sz[0]):ops.index(o)]
                    keep = {l for l in sz[0].locks & o.locks if exists(l)} - {x.lock for x in between if x.kind == 'release'}
                    ctx.check(keep, 'rotation-atomic', where(o.e), 'file_writer(%s): the check of the rule and the move are not one critical section: two threads may rotate at once' % args, q)
        for o in moved:
            after = ops[ops.index(o):]
            re_ok = [x for x in after if x.kind == 'open' and x.path == Const('app.log')]
            ctx.check(re_ok, 'rotation-order', where(o.e), 'file_writer(%s): the file is not opened again after the move' % args, q)
            for x in re_ok:
                ctx.check(appends(x), 'rotation-order', where(x.e), 'the new file is not opened for appending', q)
                if 'thread' in locks:
                    between = after[:after.index(x)]
                    keep = {l for l in o.locks & x.locks if exists(l)} - {y.lock for y in between if y.kind == 'release'}
                    wl = set.union(*[y.locks for y in writes]) if writes else set(keep)
                    ctx.check(keep & wl or not writes, 'rotation-atomic', where(x.e), 'file_writer(%s): a record may be written between the move and the reopening' % args, q)
            if any(x.ok for x in re_ok):
                ctx.check(any(x.kind == 'close' and x.handle == handle for x in ops), 'rotation-order', where(o.e), 'the rotated file is never closed', q)
        lost = [o for o in moves if not o.ok]
        if lost and q.st.facts.get(('isinst', lost[0].e.data['raised'], ExtV('builtins.FileNotFoundError'))):
            mk = [o for o in ops if o.kind == 'mkdir']
            ctx.check(mk, 'rotation-order', where(lost[0].e), 'file_writer(%s): a missing directory of archives is not created' % args, q)
            for o in mk:
                ctx.check(not o.deep, 'rotation-order', where(o.e), 'file_writer(%s): the creation of a missing directory of archives: %s' % (args, o.deep), q)
            if mk and mk[-1].ok and ops.index(mk[0]) > ops.index(lost[0]):
                ctx.check(len(moves) > 1, 'rotation-order', where(lost[0].e), 'file_writer(%s): the move is not tried again after the directory was created' % args, q)
    # flushing and the alternative
    if writes and writes[-1].ok:
        after = ops[ops.index(writes[-1]):]
        fl = [o for o in after if o.kind == 'flush' and o.handle == writes[-1].handle]
        ctx.check(bool(fl) == flush, 'flushed', FW, 'file_writer(%s): the buffer is %s after the record' % (args, 'written out' if fl else 'not written out'), q)
    # (a failure of the flush itself counts as a failure of the write)
    failed = not fmt_ok or not writes or not writes[-1].ok or any(o.kind == 'flush' and not o.ok for o in ops[ops.index(writes[-1]):])
    ctx.check(len(alts) == (1 if failed else 0) and all(o.record == REC for o in alts), 'alternative', FW, 'file_writer(%s): the alternative handler is called %d times although the write %s' % (args, len(alts), 'failed' if failed else 'succeeded'), q)


def coarse(v, st):
    """which part of the clock a name is cut down to, or None"""
    t = deep(v, st)
    if 'uuid' in t or 'tempfile' in t or 'time.time_ns' in t:
        return None
    if re.search(r"date\.today|, date\)>|attr\([^()]*, date\)", t):
        return 'the date'
    if re.search(r"'microsecond': 0|microsecond=0", t):
        return 'the seconds'
    for e in st.events():
        if e.kind != 'call' or not isinstance(e.data.get('result'), Sym) or repr(e.data['result']) not in t:
            continue
        nm = meth(e.data['callee']) or e.data['name'].split('.')[-1]
        pk = e.data['pack']
        if nm == 'strftime':
            f = [x.v for x in pk.pos + tuple(pk.kw.values()) if isinstance(x, Const) and isinstance(x.v, str)]
            if f and '%f' not in f[0]:
                return 'what the format %r shows' % f[0]
        if nm == 'replace' and pk.kw.get('microsecond') == Const(0):
            return 'the seconds'
        if nm == 'isoformat' and any(isinstance(x, Const) and x.v in ('hours', 'minutes', 'seconds', 'milliseconds') for x in pk.pos + tuple(pk.kw.values())):
            return 'the seconds'
    if re.search(r"<int\(<res\(time\.time,", t):
        return 'the seconds'
    return None


UNITS = {}
for i_, (short_, full_) in enumerate((('b', 'byte'), ('kb', 'kilobyte'), ('mb', 'megabyte'), ('gb', 'gigabyte'), ('tb', 'terabyte'), ('pb', 'petabyte'))):
    UNITS[short_] = UNITS[full_] = UNITS[full_ + 's'] = 1024 ** i_
NUMBERS = (1, 2, 5, 10, 200, 1023, 1024, 999999)
BAD_RULES = ('200', 'megabytes', 'megabytes 200', '200 200 megabytes', '200 megabytes megabytes', '200 meters', '-1 mb', '0 mb', '1.5 mb', 'one mb', '1 mb >> a >> b', '1 mb, 2', '5 minutes', '1 mb 2 kb',
             '1mb', '1 Mb s', '1 kbs', '1 mb and 2 kb', '1 mb, many kb', 'mb, 1 mb', '0 b; 1 mb', '>> a >> b', '1 mb x', 'x 1 mb', '1 mbyte', '1 kilo')


def one_limit(ctx, p, q, rule, limit, dest, ops):
    moves = [o for o in ops if o.kind == 'move']
    if limit is None:
        ctx.check(not moves, 'limit', FR, 'rotation=%s: the file is rotated without a rule' % rule, q)
        return
    for r, v in q.decide('S >= %d' % limit, S=SIZE):
        ctx.check(bool(moves) == v, 'limit', 'polog/handlers/file/rotation/rules/rules/file_size_rule.py:FileSizeRule', 'rotation=%s: a file %s %d bytes is %s' % (rule, 'of at least' if v else 'smaller than', limit, 'rotated' if moves else 'not rotated'), r)
    for o in moves:
        ctx.check(re.search(r"'%s['/]" % re.escape(dest), deep(o.dst, q.st)), 'destination', FR + '.where_to_rotate', 'rotation=%s: the archive is not put into %s: %r' % (rule, dest, o.dst), q)


def c17(ctx):
    w, pol = file_world(ctx)
    rules = []
    for u, k in UNITS.items():
        for n in NUMBERS if ctx.tier != 'quick' else (1, 7, 200):
            rules.append(('%d %s >> arch' % (n, u), n * k, 'arch'))
    rules += [('3 kb', 3072, 'logs'), ('3 kb>>arch', 3072, 'arch'), ('3 kb >>', 3072, 'logs'), ('3 kb >>   ', 3072, 'logs'), ('  3   kb  >>  deep/arch  ', 3072, 'deep/arch'), ('>> arch', None, None), ('  >> arch', None, None),
              ('3 kb, 2 kb >> arch', 2048, 'arch'), ('2 kb, 3 kb >> arch', 2048, 'arch'), ('1 mb; 2 kb >> arch', 2048, 'arch'), ('1 mb; 2 gb, 5 kb;; ,>> arch', 5120, 'arch'), ('007 kb >> arch', 7168, 'arch'), (',', None, None),
              ('3\tkb >> arch', 3072, 'arch'), ('3 kilobyte >> my arch', 3072, 'my arch')]
    for rule, limit, dest in rules:
        text = "'app.log', formatter=fmt, rotation='%s'" % rule
        for p in construct(ctx, w, pol, text):
            k0 = len(p.events())
            for q in p.run('w(REC)\n'):
                one_limit(ctx, p, q, repr(rule), limit, dest, file_ops(q, k0))
    for bad in BAD_RULES:
        refused(ctx, w, pol, "'app.log', rotation=%r" % bad, 'malformed', FR)
    # a rule without a file to rotate
    out = 'class Out:\n    def write(self, x):\n        return USER(x)\n    def read(self):\n        pass\n    def close(self):\n        pass\n    def flush(self):\n        pass\nOUT = Out()\n'
    refused(ctx, w, pol, "rotation='1 kb'", 'no-file', FR)
    refused(ctx, w, pol, "OUT, rotation='1 kb >> arch'", 'no-file', FR, out)
    refused(ctx, w, pol, "'one.log', 'two.log'", 'arguments', FD)
    # arguments of any other type are refused, all of the right type accepted
    V = Sym('value', {'maynone', 'user'})
    for name, spec in (('forced_flush', 'isinstance(V, bool)'), ('separator', 'isinstance(V, str)'), ('only_errors', 'isinstance(V, bool)')):
        pol.faults = ()
        for p in w.client(FDEFS + "refusal = None\ntry:\n    w = file_writer('app.log', %s=V)\nexcept ValueError as e:\n    refusal = e\n" % name, **hbinds(FMT=FMT, ALT=ALT, REC=REC, V=V)):
            if not ctx.check(p.exc is None, 'arguments', FW + '.__init__', '%s: %s instead of ValueError' % (name, p.show_exc()), p):
                continue
            for r, v in p.decide(spec):
                ctx.check((r.var('refusal') == NONE) == v, 'arguments', FW + '.__init__', 'the argument %s is %s although %s is %s' % (name, 'accepted' if p.var('refusal') == NONE else 'refused', spec, v), r)
    for bad in ('5', 'True', 'False', '[]', '("1 kb",)', 'b"1 kb"', 'object()', 'fmt'):
        refused(ctx, w, pol, "'app.log', rotation=%s" % bad, 'arguments', FW + '.__init__')
    for name in ('formatter', 'filter', 'alt'):
        for val, good in (('None', True), ('fmt', True), ('lambda r: r', True), ('5', False), ("'x'", False), ('lambda: 1', False), ('lambda a, b: 1', False), ('False', False)):
            if good:
                construct(ctx, w, pol, "'app.log', %s=%s" % (name, val))
                ctx.ok('arguments')
            else:
                refused(ctx, w, pol, "'app.log', %s=%s" % (name, val), 'arguments', FW + '.__init__')
    # where records go
    for args, good in (("'app.log'", 'app.log'), ('', None), ('OUT', 'user')):
        for p in w.client(FDEFS + out + 'w = file_writer(%s)\nv = file_writer(%s%sformatter=fmt)\nv(REC)\n' % (args, args, ', ' if args else ''), **hbinds(FMT=FMT, ALT=ALT, REC=REC)):
            ctx.check(p.exc is None, 'output', FD, 'file_writer(%s) is refused: %s' % (args, p.show_exc()), p)
            ops = file_ops(p)
            fm = [o for o in ops if o.kind == 'format']
            ctx.need(fm, 'the formatter is not called')
            if good == 'user':
                us = p.calls(USER)
                ctx.check([u.data['pack'].pos for u in us] == [(fm[0].content,)], 'output', FD, 'the record is not written to the file object of the user', p)
            elif good:
                ws = [o for o in ops if o.kind == 'write']
                ctx.check(len(ws) == 1 and ws[0].content == fm[0].content and any(o.kind == 'open' and o.handle == ws[0].handle and o.path == Const('app.log') and appends(o) for o in ops), 'output', FD, 'the record is not appended to the file', p)
                ctx.check(all(isinstance(o.encoding, Const) and str(o.encoding.v).lower().replace('-', '') in ('utf8', 'utf8sig') for o in ops if o.kind == 'open' and o.path == Const('app.log')), 'output', FD, 'the file is not opened in UTF-8', p)
            else:
                ws = [e for e in p.events('call') if 'stdout' in deep(e.data['callee'], p.st, 3) and e.data['name'].rstrip('>)').endswith('write') or e.data['name'] == 'builtins.print']
                ctx.check(len(ws) == 1 and fm[0].content in ws[0].data['pack'].pos and not any(o.kind == 'open' for o in ops), 'output', FD, 'the record is not written to the standard output', p)
    refused(ctx, w, pol, '5', 'arguments', FD)
    refused(ctx, w, pol, 'None', 'arguments', FD)
    for r, n in (('limit', 100), ('destination', 50), ('malformed', 20), ('no-file', 2), ('arguments', 25), ('output', 3)):
        ctx.floor(r, n)


def refused(ctx, w, pol, args, rule, construct_, pre=''):
    pol.faults = ()
    ps = w.client(FDEFS + pre + "refusal = None\ntry:\n    w = file_writer(%s)\nexcept ValueError as e:\n    refusal = e\n" % args, **hbinds(FMT=FMT, ALT=ALT, REC=REC))
    for p in ps:
        ctx.check(p.exc is None and p.var('refusal') != NONE, rule, construct_, 'file_writer(%s) is %s' % (args, 'accepted' if p.exc is None else 'refused with %s instead of ValueError' % p.show_exc()), p)


def deep(v, st, depth=14):
    """text of a term with everything it is built from"""
    out = [repr(v)]
    made = {e.data['result']: e.data for e in st.events() if e.kind == 'call' and isinstance(e.data.get('result'), Sym)}

    def go(x, d):
        if d < 0:
            return
        if isinstance(x, Ref):
            o = st.obj(x)
            out.append(str(o.cls))
            for y in list((o.items.values() if isinstance(o.items, dict) else o.items or ())) + list(o.attrs.values()) + [o.meta.get('pack')]:
                go(y, d - 1)
        elif isinstance(x, (Sym,)):
            out.append(repr(x))
            if x in made:
                out.append(made[x]['name'])
                go(made[x]['pack'], d - 1)
                go(made[x]['callee'], d - 1)
            for y in x.name:
                go(y, d - 1)
        elif isinstance(x, tuple):
            for y in x:
                go(y, d - 1)
        elif isinstance(x, TupleV):
            for y in x.items:
                go(y, d - 1)
        elif isinstance(x, Pack):
            for y in x.pos + tuple(x.kw.values()):
                go(y, d - 1)
        elif isinstance(x, MethV):
            go(x.base, d - 1)
        elif isinstance(x, Const):
            out.append(repr(x))
    go(v, depth)
    return ' '.join(out)
