"""C19: control socket and its path."""
import re
from collections import namedtuple
from ..ir import fieldname
from ..vn import atom
from ..lin import Lin
from ..build import Broken
from .vu import go, where
from .io import callname
from .res import NoC, ini, A0, A1
from .cmd import CD, CON, member, alloca_size

MEMCPY = re.compile(r'^(llvm\.mem(cpy|move)\b.*|mem(cpy|move))$')
MEMSET = re.compile(r'^(llvm\.memset\b.*|memset)$')
REMOVE = re.compile(r'^(unlink|unlinkat|remove|rename|rmdir|truncate)$')
FAMILY, SUN_PATH, SUN_SIZE = 0, 2, 110
U = namedtuple('U', 'fd copied clean bound lis assigned served gone')


def pathlen():
    return ini(A1, 8, 8)


def pathptr():
    return ini(A1, 0, 8)


class Socket(NoC):
    """constructor of command_dispatcher (this, path)"""
    init = U(None, None, None, False, False, False, False, False)

    def __init__(self, mod):
        self.path = member(mod, CD, 'path_')[0]
        self.polls = member(mod, CD, 'pollfds_')[0]
        self.binds = self.exits = 0

    def nonneg(self, a):
        return a[0] == 'm' and a[1] == A1.plus(8).key()

    def disjoint(self, b1, b2):
        return True

    def pins(self, S):
        return {S.user.fd} if S.user.fd is not None else frozenset()

    def clobber(self, S, I, name):
        if re.match(r'^_Z(NSo|StlsI|St16__ostream|NSt9basic_ios|NSt8ios_base)', name):
            return 'none'
        if I.a and S.eq(S.t(I.a[0]), A0.plus(self.polls)):
            return 'none'       # the list, not what comes after it

    def branch(self, S, B, T):
        if S.eq(A0.plus(self.path), A1):
            return 'stop'       # the argument is not part of the object

    def length(self, S, l):
        """the size of the path given, also after it was read again"""
        return S.eq(l, pathlen())

    def call(self, S, I, name, args):
        nm = callname(I)
        u = S.user
        if args is None:
            return None
        if nm == 'socket':
            return [(u._replace(fd=I.id), None), (u._replace(fd=None), Lin(-1))]
        c, z = MEMCPY.match(nm), MEMSET.match(nm)
        if c or z:
            sz = alloca_size(self.vn, args[0])
            if sz is None:
                base = [a for a in args[0].t if a[0] == 'al']
                if len(base) == 1 and args[0].t[base[0]] == 1:
                    whole = self.vn.fn.inst[base[0][1]].d.get('sz')
                    end = args[0] + args[2] - atom(base[0])
                    off = args[0] - atom(base[0])
                else:
                    return None
            else:
                whole = self.size(args[0])
                base = [a for a in args[0].t if a[0] == 'al']
                off = args[0] - atom(base[0])
                end = off + args[2]
            if whole is None:
                return None
            lo, hi, _ = S.rng(end)
            if hi > whole:
                return ('bad', 'the path of the control socket is copied past the end of the %d bytes reserved for it: a path that does not fit must be refused' % whole)
            if S.rng(args[2])[0] < 0 and args[2].const() is None:
                return ('bad', 'the length of a copy may be negative')
            if c and S.eq(args[1], pathptr()) and off.const() == SUN_PATH:
                if S.eq(args[2], pathlen().plus(1)):
                    S.user = u._replace(copied=(base[0], 1))
                elif S.eq(args[2], pathlen()):
                    S.user = u._replace(copied=(base[0], 0))
            if z and args[1].const() == 0 and hi == whole and S.rng(end)[0] == whole:
                if off.const() is not None and off.const() <= SUN_PATH and u.copied is None:
                    S.user = u._replace(clean=base[0])
                elif S.rng(off - pathlen())[1] <= SUN_PATH + 1 and S.rng(off - pathlen())[0] >= SUN_PATH:
                    S.user = u._replace(clean=base[0])
            return None
        if nm == 'bind':
            return self.bind(S, I, args)
        if nm == 'listen':
            if not u.bound:
                return ('bad', 'listens on a socket that is not bound')
            if u.fd is None or not S.eq(args[0], atom(('v', u.fd))):
                return ('bad', 'listens on another descriptor than the one that was bound')
            return [(u._replace(lis=True), Lin(0)), (u._replace(lis=False), Lin(-1))]
        if REMOVE.match(nm):
            return self.remove(S, nm, args)
        if args and S.eq(args[0], A0.plus(self.polls)) and re.search(r'push_back|emplace_back|_M_realloc_insert|insert|emplace', nm):
            if not (u.bound and u.lis):
                return ('bad', 'the control socket is served although it is not bound and listening')
            if u.fd is not None and len(args) > 1:
                src = args[2] if re.search(r'_M_realloc_insert|6insert|7emplaceI', nm) and len(args) > 2 else args[1]
                v = S.read(src, 4)
                if v is not None and not S.eq(v, atom(('v', u.fd))):
                    return ('bad', 'another descriptor than the control socket is served')
                ev = S.read(src.plus(4), 2)
                if 'push_back' in nm and (ev is None or ev.const() is None or not ev.const() & 1):
                    return ('bad', 'connections to the control socket are not polled for')
            S.user = u._replace(served=True)
            return None
        if nm.startswith('_ZN') and 'basic_string' in nm and args and S.eq(args[0], A0.plus(self.path)):
            if len(args) > 1 and (S.eq(args[1], A1) or S.eq(args[1], pathptr())):
                S.user = u._replace(assigned=True)
            elif not nm.endswith(('D1Ev', 'D2Ev', '_M_disposeEv')):
                S.user = u._replace(assigned=None)
        return None

    def size(self, a):
        base = [x for x in a.t if x[0] == 'al']
        return self.vn.fn.inst[base[0][1]].d.get('sz') if base else None

    def bind(self, S, I, args):
        u = S.user
        self.binds += 1
        if u.fd is None or not S.eq(args[0], atom(('v', u.fd))):
            return ('bad', 'binds another descriptor than the socket that was created')
        b = [x for x in args[1].t if x[0] == 'al']
        if not u.copied or not b or args[1].c or u.copied[0] != b[0]:
            return ('bad', 'the socket is bound to an address that is not the path given')
        f = S.read(args[1].plus(FAMILY), 2)
        if f is None or f.const() != 1:
            return ('bad', 'the family of the address of the control socket is not set')
        n = args[2].const()
        if n is not None:
            if n > self.size(args[1]):
                return ('bad', 'bind is told that the address is longer than it is')
            first = S.read(args[1].plus(SUN_PATH), 1)
            if u.clean != b[0] and not (first is not None and S.nonzero(first)):
                return ('bad', 'the rest of the address of an abstract control socket is not cleared')
            if n < SUN_SIZE:
                return ('bad', 'a long path of the control socket is cut off')
        elif not (S.eq(args[2], pathlen().plus(SUN_PATH + 1)) or S.eq(args[2], pathlen().plus(SUN_PATH))):
            return ('bad', 'bind is not given the length of the path')
        if not u.copied[1] and u.clean != b[0] and n is not None:
            return ('bad', 'the path of the control socket is not terminated')
        return [(u._replace(bound=True), Lin(0)), (u._replace(bound=False), Lin(-1))]

    def remove(self, S, nm, args):
        u = S.user
        p = S.read(A0.plus(self.path), 8)
        if nm == 'unlink' and u.bound and (S.eq(args[0], pathptr()) or p is not None and S.eq(args[0], p)):
            S.user = u._replace(gone=True)
            return None
        return ('bad', '%s() of a path at which this logger has not created its socket' % nm)

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        self.exits += 1
        u = S.user
        if u.bound and u.lis and not u.served and not u.gone:
            return ('bad', 'the control socket is bound and listening but not served')
        L = S.read(A0.plus(self.path + 8), 8)
        if u.assigned is None:
            raise Broken('the path is remembered in a way that is not understood')
        if u.bound and not u.gone:
            if not u.assigned and not (L is not None and self.length(S, L)):
                return ('bad', 'the path of the socket is not remembered, so that the socket is never removed')
        elif u.assigned or L is None or not S.zero(L):
            return ('bad', 'a path is remembered, to be removed later, at which this logger has not created its socket')


class Remove(NoC):
    """destructor of command_dispatcher; user: number of unlinks"""
    init = 0

    def __init__(self, mod):
        self.path = member(mod, CD, 'path_')[0]

    def call(self, S, I, name, args):
        nm = callname(I)
        if args is None or not REMOVE.match(nm):
            return None
        if nm not in ('unlink', 'remove') or not S.eq(args[0], ini(A0, self.path, 8)):
            return ('bad', '%s() of something other than the path of the control socket' % nm)
        S.user = min(S.user + 1, 2)

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        if S.user == 0 and not S.zero(ini(A0, self.path + 8, 8)):
            return ('bad', 'the control socket is not removed when the logger ends')
        if S.user > 1:
            return ('bad', 'the path of the control socket is removed twice')


V = namedtuple('V', 'new open dead old regs')


class Install(NoC):
    """consumer::set_command_path(this, path)"""
    init = V(None, None, False, False, frozenset())

    def __init__(self, mod):
        self.cmds = member(mod, CON, 'cmds_')[0]
        self.polls = member(mod, CD, 'pollfds_')[0]
        self.null = 0

    def nonneg(self, a):
        return a[0] == 'm' and a[1] == A1.plus(8).key()

    def disjoint(self, b1, b2):
        return True

    def pins(self, S):
        return {S.user.new} if S.user.new is not None else frozenset()

    def unwind(self, S, I):
        return 'stop'           # noexcept

    def call(self, S, I, name, args):
        nm = callname(I)
        u = S.user
        if args is None:
            return None
        if re.search(r'18command_dispatcherC[12]E', nm):
            if u.new is not None:
                return ('bad', 'the control socket is opened twice')
            L = S.read(args[1].plus(8), 8)
            if L is None and not S.eq(args[1], A1) or L is not None and not S.eq(L, pathlen()):
                return ('bad', 'the control socket is opened at another path than the one given')
            a = [x for x in args[0].t]
            if len(a) != 1 or a[0][0] != 'new':
                raise Broken('command dispatcher not created with new')
            u = u._replace(new=a[0][1])
            return [(u._replace(open=True), None), (u._replace(open=False), None)]
        if re.search(r'18command_dispatcherD[12]E', nm):
            if u.new is not None and S.eq(args[0], atom(('new', u.new))):
                if u.dead:
                    return ('bad', 'the control socket is destroyed twice')
                S.user = u._replace(dead=True)
            elif S.eq(args[0], ini(A0, self.cmds, 8)):
                S.user = u._replace(old=True)
            return None
        if u.new is not None and args and S.eq(args[0], atom(('new', u.new))) and 'unordered_map' in nm and len(args) > 1:
            m = re.search(r'6detail\d+(\w+?)8frame_idE', str(I.a[1]))
            S.user = u._replace(regs=u.regs | {m.group(1) if m else str(args[1].key())})
        return None

    def load(self, S, I, a, n):
        u = S.user
        if u.new is None or u.open is None:
            return None
        b = atom(('new', u.new)).plus(self.polls)
        if n == 8 and a.key() in (b.key(), b.plus(8).key()):
            if not u.open:
                return Lin(0)
            s = atom(('new', -u.new - 1))
            return s if a.key() == b.key() else s.plus(8)

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        u = S.user
        c = S.read(A0.plus(self.cmds), 8)
        old = ini(A0, self.cmds, 8)
        if u.new is None:
            if c is not None and not S.eq(c, old) or u.old:
                return ('bad', 'the control socket in use is dropped although none takes its place')
            if not S.zero(pathlen()):
                return ('bad', 'a path is given but no control socket is opened')
            self.null += 1
            return None
        if S.zero(pathlen()):
            return ('bad', 'a control socket is opened although the path given is the null path')
        if u.open:
            if c is None or not S.eq(c, atom(('new', u.new))) or u.dead:
                return ('bad', 'the control socket is open but is not kept')
            if len(u.regs) < 3:
                return ('bad', 'the control socket is served but only %d of the 3 commands are registered' % len(u.regs))
        else:
            if c is None or not S.zero(c):
                return ('bad', 'a control socket that could not be opened is kept')
            if not u.dead:
                return ('bad', 'a control socket that could not be opened is not destroyed, its path is never removed')
        if not u.old and not S.zero(old):
            return ('bad', 'the control socket used before is not destroyed')


def conversions(f):
    """[(literal before, conversion)] of a printf format"""
    r, lit, i = [], '', 0
    while i < len(f):
        if f[i] == '%':
            m = re.match(r'%([-+ #0]*)(\d+|\*)?(\.\d*|\.\*)?(hh|h|ll|l|j|z|t)?([a-zA-Z%])', f[i:])
            if not m:
                return None
            if m.group(5) == '%':
                lit += '%'
            else:
                r.append((lit, m))
                lit = ''
            i += m.end()
        else:
            lit += f[i]
            i += 1
    r.append((lit, None))
    return r


NUM = ('zext', 'sext', 'trunc', 'add', 'sub', 'phi', 'freeze', 'select', 'bitcast')
DIGITS = NUM + ('udiv', 'urem', 'sdiv', 'srem', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'getelementptr', 'load')


def flows(fn, src, ops=NUM):
    """values computed from an SSA value by conversions and arithmetic"""
    s = {src}
    while True:
        n = {I.id for I in fn.all() if (I.op in ops or I.op == 'call' and re.match(r'llvm\.(abs|[us]m)', callname(I))) and any(x in s for x in I.a if isinstance(x, int))} - s
        if not n:
            return s
        s |= n


def unique(ctx, rep, mod, fn):
    """default_command_path: contains the process id and a number used once"""
    rmw = [I for I in fn.all() if I.op == 'atomicrmw' or I.op == 'cmpxchg']
    pid = [I for I in fn.calls() if callname(I) == 'getpid']
    w = '%s' % (fn.short())
    if not pid:
        rep.bad('unique', w, 'the default path of the control socket does not contain the process id', None)
        return
    if not rmw:
        rep.bad('unique', w, 'the number in the default path of the control socket is not taken from a counter in one atomic step: two threads may get the same path', None)
        return
    stores = {}
    for I in fn.all():
        if I.op == 'store' and isinstance(I.a[0], int):
            stores.setdefault(I.a[0], []).append(I)

    def used(src):
        s = flows(fn, src, DIGITS)
        return any(not callname(I).startswith('llvm.') and any(x in s for x in I.a if isinstance(x, int)) for I in fn.calls()) or any(x in stores for x in s)
    for what, I in [('process id', pid[0]), ('number of the logger', rmw[0])]:
        if not used(I.id):
            rep.bad('unique', where(I), 'the %s is not part of the default path of the control socket' % what, None)
    for I in fn.all():
        if I.op == 'store' and I.d.get('ord') and any(fieldname(fn, I.a[1], I) and fieldname(fn, I.a[1], I) == fieldname(fn, J.a[0], J) or I.a[1] == J.a[0] for J in rmw):
            rep.bad('unique', where(I), 'the counter behind the default path of the control socket is set back', None)
    for J in rmw:
        if J.op == 'atomicrmw':
            k = J.a[1]
            if J.d.get('rmw') not in ('add', 'sub') or isinstance(k, dict) and k.get('v') == 0:
                rep.bad('unique', where(J), 'the counter behind the default path of the control socket does not change', None)
    for I in fn.calls():
        if callname(I) not in ('snprintf', '__snprintf_chk', 'sprintf'):
            continue
        f = mod.strs.get(gname(I.a[2 if callname(I) == 'snprintf' else 1]))
        if callname(I) != 'snprintf' or f is None:
            continue
        P, N = flows(fn, pid[0].id), flows(fn, rmw[0].id)
        cv = conversions(f.split(b'\0')[0].decode('latin1'))
        if cv is None:
            raise Broken('format of the default path not understood')
        a = I.a[3:]
        pos = {}
        for i, (lit, m) in enumerate(cv[:-1]):
            x = a[i] if i < len(a) else None
            for k, s in (('pid', P), ('n', N)):
                if isinstance(x, int) and x in s:
                    pos[k] = i
                    if m.group(5) not in 'diuxXo' or m.group(4) in ('h', 'hh') or m.group(3):
                        rep.bad('unique', where(I), 'the default path of the control socket does not contain all of the %s' % ('process id' if k == 'pid' else 'number of the logger'), None)
        if len(pos) < 2 and (P | N) & {x for x in a if isinstance(x, int)}:
            rep.bad('unique', where(I), 'the default path of the control socket does not contain both the process id and the number of the logger', None)
        elif len(pos) == 2:
            i, j = sorted(pos.values())
            between = cv[j][0] if j == i + 1 else cv[i + 1][0] + '?'
            if not between or all(ch in '0123456789abcdefABCDEF' for ch in between):
                rep.bad('unique', where(I), 'nothing separates the process id from the number of the logger in the default path: different loggers may get the same path', None)
        rep.ok('default paths', 'format %r' % f.split(b'\0')[0].decode('latin1'))


def gname(x):
    return x.get('n') if isinstance(x, dict) else None


class Bounded(NoC):
    """snprintf stays inside its buffer"""
    n = 0

    def call(self, S, I, name, args):
        nm = callname(I)
        if args is None:
            return None
        if nm == 'snprintf':
            sz = alloca_size(self.vn, args[0])
            if sz is not None and S.rng(args[1])[1] > sz:
                return ('bad', 'snprintf is told that its buffer is larger than its %d bytes' % sz)
            self.n += 1
        elif nm in ('sprintf', 'strcpy', 'strcat', 'stpcpy') and alloca_size(self.vn, args[0]) is not None:
            return ('bad', '%s of a string of any length into a buffer of fixed size' % nm)

    def unwind(self, S, I):
        return 'stop'


def plain(fn):
    """every string function gets the start and at most the size of a local array"""
    for I in fn.calls():
        nm = callname(I)
        if nm in ('sprintf', 'strcpy', 'strcat', 'stpcpy'):
            return False
        if nm == 'snprintf':
            A = fn.inst.get(I.a[0]) if isinstance(I.a[0], int) else None
            n = I.a[1].get('v') if isinstance(I.a[1], dict) else None
            if A is None or A.op != 'alloca' or n is None or n > (A.d.get('sz') or 0):
                return False
    return True


def c19(ctx, rep):
    mod = ctx.lib()
    rep.rule('open', 'the constructor of command_dispatcher never writes past the socket address, binds the socket it created to exactly the path given, serves it only when it is bound and listening, and remembers its path exactly when it is bound')
    rep.rule('remove', 'the destructor of command_dispatcher removes the path it remembers and no other file; nothing else removes files')
    rep.rule('install', 'set_command_path: the null path changes nothing; otherwise the socket used before is destroyed, and the new one is kept with all its commands exactly when it is open')
    rep.rule('unique', 'the default path contains the process id and a number that is taken from a counter in one atomic step')
    for f in mod.find(lambda d: re.search(r'^_ZN3xtr6detail18command_dispatcherC2ENSt7__cxx11', d['n'])):
        r = Socket(mod)
        go(rep, 'open', f, r, cap=60000)
        rep.ok('sockets', f.short(), r.binds)
    for f in mod.find(lambda d: re.search(r'^_ZN3xtr6detail18command_dispatcherD2Ev$', d['n'])):
        go(rep, 'remove', f, Remove(mod))
        rep.ok('destructors', f.short())
    for f in mod.find(lambda d: re.search(r'^_ZN3xtr6detail8consumer16set_command_pathE', d['n'])):
        r = Install(mod)
        go(rep, 'install', f, r)
        rep.ok('installations', f.short())
        if not r.null and not rep.viol and not rep.stopped:
            rep.bad('install', f.short(), 'the null path does not switch the control socket off', None)
    fs = mod.find(lambda d: re.match(r'^_ZN3xtr20default_command_path', d['n']))
    for f in fs:
        unique(ctx, rep, mod, f)
        rep.ok('default path functions', f.short())
    for f in fs + mod.find(lambda d: re.match(r'^_ZN3xtr6detail10get_(rundir|tmpdir)', d['n'])):
        if plain(f):
            continue
        r = Bounded()
        go(rep, 'unique', f, r)
        rep.n('buffers', r.n)
    for f in mod.find(lambda d: d['n'].startswith('_ZN3xtr') and not re.search(r'18command_dispatcher[CD]2E', d['n'])):
        for I in f.calls():
            if REMOVE.match(callname(I)) and not re.search(r'18command_dispatcherD', str(I.d.get('inl') or '')):
                rep.bad('remove', where(I), '%s() outside of the destructor of the control socket (in %s)' % (callname(I), f.short()), None)
    rep.need('sockets', 1)
    rep.need('destructors', 1)
    rep.need('installations', 1)
    rep.need('default path functions', 1)
