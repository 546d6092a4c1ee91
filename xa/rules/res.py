"""Resources: file descriptors, rings, compiled patterns, mappings."""
import re
from collections import namedtuple
from ..ir import fieldname, vcall
from ..vn import Rule, atom, cint
from ..lin import Lin
from ..build import Broken
from .vu import go, term_name, sym_name, ends
from .io import callname

FD = '_ZTSN3xtr6detail15file_descriptorE'
MM = '_ZTSN3xtr6detail14memory_mappingE'
ACQ = re.compile(r'(open|open64|openat|creat|socket|accept|accept4|dup|memfd_create|shm_open|eventfd|epoll_create1?|pipe2?|mkstemp)$')
T = namedtuple('T', 'id key size locs st')     # a resource: how it is called, where it is stored, live | closed | handed


def lin(k):
    return Lin(k[0], dict(k[1]))


def ini(base, off, n):
    return atom(('m', base.plus(off).key(), n))


def fields(mod, cls, want, off=0, seen=()):
    """offsets of the members of a type inside a class"""
    if cls == want:
        return [off]
    c = mod.classes.get(cls)
    r = []
    if c and cls not in seen and not cls.startswith('_ZTSSt'):
        for nm, o, t, n in c['m']:
            r += fields(mod, t, want, off + o, seen + (cls,))
    return r


def dtor_class(name):
    m = re.match(r'_ZN(3xtr.*)D[012]Ev$', name)
    return '_ZTSN%sE' % m.group(1) if m else None


class NoC(Rule):
    def unwind(self, S, I):
        nm = callname(I)
        if nm and not nm.startswith(('_Z', '__cxa_')):
            return 'stop'       # functions of the C library do not throw


class Own(NoC):
    """Each descriptor is at any time held in one place, until it is closed
    once.  inputs: descriptors held when the function starts."""
    kind, close, word = FD, 'close', 'file descriptor'

    def __init__(self, mod, inputs=(), dtor=False, strict=False):
        self.mod, self.dtor, self.strict = mod, dtor, strict
        self.init = tuple(T(i, l.key(), s.key() if s is not None else None, frozenset([a.key()]) if a is not None else frozenset(), 'live') for i, l, s, a in inputs)
        self.nacq = self.nclose = 0
        self.lens = {}

    def disjoint(self, b1, b2):
        return self.strict          # assignment to itself is looked at separately

    def branch(self, S, B, T):
        if self.strict and S.eq(A0, A1) and A1 in self.holders:
            return 'stop'

    # -- tokens
    def pins(self, S):
        return {t.id for t in S.user if isinstance(t.id, int)}

    def val(self, t):
        return lin(t.key) if t.key is not None else atom(('v', t.id))

    def gone(self, S, t):
        return S.eq(self.val(t), Lin(-1))

    def find(self, S, l):
        for i, t in enumerate(S.user):
            if S.eq(self.val(t), l):
                return i
        return None

    def put(self, S, i, **kw):
        u = list(S.user)
        u[i] = u[i]._replace(**kw)
        S.user = tuple(u)

    def local(self, k):
        b = self.vn.base_of(k)
        return b is not None and b[0] == 'al'

    def kept(self, t, ret=True):
        """held by an object that outlives the function"""
        for k in t.locs:
            if self.local(k):
                continue
            b = self.vn.base_of(k)
            if not ret and self.ctor and b == ('arg', 0):
                continue        # a constructor that throws leaves no object
            return True
        return False

    @property
    def ctor(self):
        return bool(re.search(r'C[12]E', self.vn.fn.name))

    def header(self, S, B):
        S.user = tuple(t for t in S.user if t.st == 'live' and not self.gone(S, t) or not isinstance(t.id, int))

    # -- events
    def shut(self, S, l, size=None):
        if S.eq(l, Lin(-1)):
            return None
        self.nclose += 1
        i = self.find(S, l)
        if i is not None:
            t = S.user[i]
            if t.st == 'closed':
                return ('bad', 'a %s is closed twice' % self.word)
            if t.st == 'handed':
                return ('bad', 'a %s that belongs to another object is closed' % self.word)
            if size is not None and (t.size is None or not S.eq(size, lin(t.size))):
                return ('bad', 'a mapping is unmapped with another length than it was mapped with')
            self.put(S, i, st='closed')
            return None
        n = term_name(self.vn, l) or ''
        if not self.strict and (ends(n, 'fd_.fd_', 'fd.fd_', 'file_descriptor::fd_') or n.endswith('.fd_')):
            return None
        if not self.strict and l.t and any(a[0] in ('al',) or sym_name(self.vn, a) is None and a[0] == 'v' and self.isload(a) for a in l.t):
            return None
        return ('bad', 'a %s is closed that is not owned here' % self.word)

    def isload(self, a):
        I = self.vn.fn.inst.get(a[1])
        return I is not None and I.op == 'load'

    def call(self, S, I, name, args):
        nm = callname(I)
        if args is None:
            return None
        if ACQ.match(nm) and self.kind == FD:
            self.nacq += 1
            u = []
            for t in S.user:
                if t.id == I.id:
                    if t.st == 'live' and not self.gone(S, t) and not self.kept(t):
                        return ('bad', 'a file descriptor is lost: it was neither closed nor stored when another one is opened')
                else:
                    u.append(t)
            S.user = tuple(u) + (T(I.id, None, None, frozenset(), 'live'),)
            return None
        if nm == self.close:
            return self.shut(S, args[0], args[1] if nm == 'munmap' else None)
        c = dtor_class(nm)
        if c:
            for o in fields(self.mod, c, self.kind):
                k = args[0].plus(o).key()
                if self.local(k) and not any(k in t.locs for t in S.user):
                    v = S.read(args[0].plus(o), 4 if self.kind == FD else 8)
                    if v is not None:
                        r = self.shut(S, v)
                        if r:
                            return r
                for i, t in enumerate(S.user):
                    if k in t.locs:
                        if t.st == 'closed' and not self.gone(S, t):
                            return ('bad', 'a %s is closed twice' % self.word)
                        if t.st == 'live':
                            self.nclose += 1
                            self.put(S, i, st='closed')
            return None
        if nm.startswith('llvm.'):
            return None
        v = vcall(I)
        if v and v[1] == 'replace_fd' or re.search(r'10replace_fdEi$', nm):
            i = self.find(S, args[1])
            if i is not None:
                if S.user[i].st != 'live':
                    return ('bad', 'a closed file descriptor is installed')
                self.put(S, i, st='handed')
            return None
        libc = nm and not nm.startswith('_Z')
        for a in () if libc else args:
            k = a.key()
            for i, t in enumerate(S.user):
                if t.st == 'live' and (k in t.locs or any(self.local(x) and self.vn.base_of(x) == self.vn.base_of(k) for x in t.locs)) and not self.constref(I, nm):
                    self.put(S, i, st='handed')
        return None

    def constref(self, I, nm):
        return bool(re.match(r'_ZNK', nm))

    def load(self, S, I, a, n):
        k = a.key()
        if n == (4 if self.kind == FD else 8) and self.local(k):
            for t in S.user:
                if k in t.locs and t.st != 'handed':
                    return self.val(t)

    def store(self, S, I, a, v, n):
        k = a.key()
        u = []
        b = self.vn.base_of(k)
        for t in S.user:
            locs = t.locs - {k}
            st = t.st
            if n == (4 if self.kind == FD else 8) and S.eq(self.val(t), v) and not self.gone(S, t):
                if not self.local(k) and self.kind == FD:
                    nm = fieldname(self.vn.fn, I.a[1], I) or ''
                    if re.search(r'\.fd_$|file_descriptor::fd_$|io_uring_sqe', nm) or self.vn.base_of(k) is None or not re.search(r'::', nm):
                        if b is not None and b[0] == 'arg':
                            locs |= {k}
                        elif st == 'closed':
                            return ('bad', 'a closed file descriptor is stored')
                        else:
                            st = 'handed'       # to some other object
                else:
                    locs |= {k}
            u.append(t._replace(locs=locs, st=st))
        S.user = tuple(u)

    def exit(self, S, I):
        ret = I.op == 'ret'
        if not ret and I.op != 'resume':
            return None
        rv = S.t(I.a[0]) if ret and I.a else None
        for t in S.user:
            if self.gone(S, t) or t.st == 'handed':
                continue
            out = [k for k in t.locs if not self.local(k)]
            if t.st == 'closed':
                if ret and not self.dtor and out:
                    return ('bad', 'a %s is closed but the object still refers to it' % self.word)
                if rv is not None and rv.t and S.eq(rv, self.val(t)):
                    return ('bad', 'a %s is closed and returned' % self.word)
                continue
            if self.dtor:
                return ('bad', 'a %s is not closed when the object is destroyed' % self.word)
            if rv is not None and rv.t and S.eq(rv, self.val(t)):
                if out:
                    return ('bad', 'a %s is returned but the object still refers to it' % self.word)
                continue
            if not self.kept(t, ret):
                return ('bad', 'a %s is lost: it is neither closed nor held by an object when the function %s' % (self.word, 'returns' if ret else 'throws'))
            if len(out) > 1 and ret:
                return ('bad', 'two objects refer to the same %s' % self.word)
            if t.size is not None and ret:
                l = S.read(lin(out[0]).plus(8), 8)
                if l is None and not S.dirty:
                    l = ini(lin(out[0]), 8, 8)
                if l is None or not S.eq(l, lin(t.size)):
                    return ('bad', 'the length of a mapping is lost')
        if self.strict and ret:
            for a in self.holders:
                v = S.read(a, 4 if self.kind == FD else 8)
                if v is None and not S.dirty and any(a.key() in t.locs for t in S.user):
                    continue        # never touched
                if v is None or not (S.eq(v, Lin(-1)) or self.find(S, v) is not None):
                    return ('bad', 'an object refers to a %s that it was not given' % self.word)


class OwnMap(Own):
    kind, close, word = MM, 'munmap', 'mapping'

    def call(self, S, I, name, args):
        if callname(I) in ('mmap', 'mmap64'):
            self.nacq += 1
            S.user += (T(I.id, None, args[1].key(), frozenset(), 'live'),)
            return None
        return Own.call(self, S, I, name, args)


WIT = r'''
#include <xtr/detail/file_descriptor.hpp>
#include <xtr/detail/memory_mapping.hpp>
#include <new>
#include <utility>
using F = xtr::detail::file_descriptor;
using M = xtr::detail::memory_mapping;
extern "C" void w_fd_move(F* a, F* b) { new (a) F(std::move(*b)); }
extern "C" void w_fd_assign(F* a, F* b) { *a = std::move(*b); }
extern "C" void w_fd_swap(F* a, F* b) { swap(*a, *b); }
extern "C" void w_fd_ctor(F* a, int f) { new (a) F(f); }
extern "C" void w_fd_reset(F* a, int f) { a->reset(f); }
extern "C" int w_fd_release(F* a) { return a->release(); }
extern "C" void w_fd_dtor(F* a) { a->~F(); }
extern "C" void w_mm_move(M* a, M* b) { new (a) M(std::move(*b)); }
extern "C" void w_mm_assign(M* a, M* b) { *a = std::move(*b); }
extern "C" void w_mm_swap(M* a, M* b) { swap(*a, *b); }
extern "C" void w_mm_reset(M* a, void* p, std::size_t n) { a->reset(p, n); }
extern "C" void w_mm_dtor(M* a) { a->~M(); }
extern "C" bool w_fd_open(F* a) { return a->is_open(); }
extern "C" bool w_fd_bool(F* a) { return bool(*a); }
extern "C" bool w_mm_bool(M* a) { return bool(*a); }
'''
A0, A1, A2 = (atom(('arg', i)) for i in range(3))


def fdin(a, off=0):
    return ini(a, off, 4)


def target(ctx, fn):
    """the function that a witness merely calls"""
    cs = [I for I in fn.calls() if not callname(I).startswith('llvm.')]
    if len(cs) == 1 and len(fn.blocks) == 1 and [I.op for I in fn.all() if I.op != 'call'] == ['ret']:
        n = re.sub(r'([CD])1E', r'\g<1>2E', callname(cs[0]))
        if n in ctx.lib().fns and len(cs[0].a) == len(fn.args):
            return ctx.lib().fn(n)
    return fn


def members(ctx, rep, rid, what):
    """member functions of the owning classes"""
    mod = ctx.witness('own', WIT, keep='^w_')
    fd = what == 'fd'
    n = 4 if fd else 8
    cls = Own if fd else OwnMap

    def inp(a):
        return (a, ini(a, 0, n), None if fd else ini(a, 8, 8), a)
    cases = [('move', [inp(A1)], [A0, A1], {}), ('assign', [inp(A0), inp(A1)], [A0, A1], {}),
             ('swap', [inp(A0), inp(A1)], [A0, A1], {}), ('dtor', [inp(A0)], [], {}),
             ('assign', [inp(A0)], [A0], {1: A0}),
             ('reset', [inp(A0), ('new', A1, None if fd else A2, None)], [A0], {})]
    if fd:
        cases += [('ctor', [('new', A1, None, None)], [A0], {}), ('release', [inp(A0)], [A0], {})]
    for nm, inputs, holders, av in cases:
        fn = target(ctx, mod.fn('w_%s_%s' % (what, nm)))
        r = cls(mod, [(str(i[0]), i[1], i[2], i[3]) for i in inputs], dtor=nm == 'dtor', strict=True)
        r.holders = holders
        go(rep, rid, fn, r, what='%s::%s%s' % ('file_descriptor' if fd else 'memory_mapping', nm, ' to itself' if av else ''), argvals=av)
        rep.ok('member functions', '%s %s' % (what, nm))
    for nm in ('open', 'bool') if fd else ('bool',):
        fn = mod.fn('w_%s_%s' % (what, nm))
        r = IsOpen(ini(A0, 0, n))
        go(rep, rid, fn, r, what='%s: test for being open' % ('file_descriptor' if fd else 'memory_mapping'))
        rep.ok('member functions', '%s %s' % (what, nm))


class IsOpen(Rule):
    def __init__(self, v):
        self.v = v

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        # the result is a comparison: look at both outcomes
        for pol in (1, 0):
            for x in self.vn.cond(S.copy(), I.a[0], pol):
                if pol and not x.nonzero(self.v.plus(1)) or not pol and not x.eq(self.v, Lin(-1)):
                    return ('bad', 'does not tell whether the object holds anything')


class Ring(NoC):
    """io_uring_fd_storage: the ring is set up once and torn down once"""
    def __init__(self, mod, dtor):
        self.dtor = dtor
        self.off = mod.member('_ZTSN3xtr19io_uring_fd_storageE', 'ring_')[0]
        self.init = ('live' if dtor else 'none', None)
        self.n = 0

    def pins(self, S):
        return {S.user[1]} if S.user[1] is not None else frozenset()

    def st(self, S):
        s, i = S.user
        if s == 'init':
            r = atom(('v', i))
            return 'live' if S.zero(r) else 'none' if S.nonzero(r) else 'maybe'
        return s

    def call(self, S, I, name, args):
        nm = callname(I)
        if nm.startswith('io_uring_queue_init'):
            self.n += 1
            if self.st(S) != 'none':
                return ('bad', 'a ring is set up twice')
            if not S.eq(args[1], A0.plus(self.off)):
                return ('bad', 'another ring is set up than that of the storage')
            S.user = ('init', I.id)
        elif nm == 'io_uring_queue_exit':
            self.n += 1
            if self.st(S) != 'live':
                return ('bad', 'a ring is torn down that is not known to be set up')
            if not S.eq(args[0], A0.plus(self.off)):
                return ('bad', 'another ring is torn down than that of the storage')
            S.user = ('dead', None)
        elif self.dtor and S.user[0] == 'dead' and ('io_uring' in nm or re.search(r'5flush|4sync', nm)):
            return ('bad', 'the ring is used after it was torn down')
        return None

    def exit(self, S, I):
        if I.op not in ('ret', 'resume'):
            return None
        s = self.st(S)
        if self.dtor and s != 'dead':
            return ('bad', 'the ring is not torn down when the storage is destroyed')
        if not self.dtor and I.op == 'ret' and s != 'live':
            return ('bad', 'the constructor returns without a ring')
        if not self.dtor and I.op == 'resume' and s not in ('none', 'dead'):
            return ('bad', 'the ring is not torn down when the constructor fails')


class Regex(Rule):
    def __init__(self, off, err):
        self.off, self.err = off, err
        self.init = False

    def call(self, S, I, name, args):
        if callname(I) == 'regfree':
            if S.user:
                return ('bad', 'a compiled pattern is freed twice')
            if not S.zero(ini(A0, self.err, 4)):
                return ('bad', 'a pattern is freed that may not have been compiled')
            if not S.eq(args[0], A0.plus(self.off)):
                return ('bad', 'another pattern is freed')
            S.user = True

    def exit(self, S, I):
        if I.op == 'ret' and not S.user and not S.nonzero(ini(A0, self.err, 4)):
            return ('bad', 'a compiled pattern is not freed')


class RegComp(Rule):
    def __init__(self, off, err):
        self.off, self.err = off, err
        self.init = None

    def pins(self, S):
        return {S.user} if S.user is not None else frozenset()

    def call(self, S, I, name, args):
        if callname(I) == 'regcomp':
            if S.user is not None:
                return ('bad', 'a pattern is compiled twice')
            if not S.eq(args[0], A0.plus(self.off)):
                return ('bad', 'another pattern is compiled')
            S.user = I.id

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        v = S.read(A0.plus(self.err), 4)
        if S.user is None:
            if v is None or not S.nonzero(v):
                return ('bad', 'a pattern that was not compiled passes as compiled')
            return None
        r = atom(('v', S.user))
        if v is None or not (S.eq(v, r) or S.nonzero(v) and S.nonzero(r) or S.zero(v) and S.zero(r)):
            return ('bad', 'the result of compiling the pattern is not kept')


def c17(ctx, rep):
    mod = ctx.lib()
    rep.rule('member', 'construction, move, assignment, reset, release and destruction of file_descriptor: the descriptors held before are afterwards held by exactly one object, returned, or closed once')
    rep.rule('own', 'in every function of the library that opens or closes descriptors: on every path, including those of exceptions, each descriptor opened is closed once or held by one object; only owned descriptors are closed')
    rep.rule('dtor', 'destructors of the classes that hold a descriptor close it once')
    rep.rule('ring', 'a ring is set up once and torn down once: in the destructor, or when construction fails after set-up')
    rep.rule('regex', 'a compiled pattern is freed once, one that failed to compile is not')
    members(ctx, rep, 'member', 'fd')
    sites = {}
    for n in mod.fns:
        sites[n] = {I.where() for I in mod.fn(n).calls() if ACQ.match(callname(I)) or callname(I) == 'close'}
    inner = set()
    for n in mod.fns:
        if '18command_dispatcher' in n:
            inner |= sites[n]
    for n in sorted(mod.fns):
        if '8consumer3run' in n and sites[n] <= inner:
            continue        # the dispatcher's functions are analysed themselves
        f = mod.fn(n)
        c = dtor_class(n)
        fo = fields(mod, c, FD) if c else []
        calls = {callname(I) for I in f.calls()}
        if fo:
            r = Own(mod, [('%s+%d' % (c, o), fdin(A0, o), None, A0.plus(o)) for o in fo], dtor=True)
            go(rep, 'dtor', f, r)
            rep.ok('destructors', f.short())
        elif any(ACQ.match(x) or x == 'close' or dtor_class(x) == FD for x in calls) or n.startswith('_ZN') and any(
                I.op == 'store' and re.search(r'\.fd_$|file_descriptor::fd_$', fieldname(f, I.a[1], I) or '') for I in f.all()):
            inputs = []
            if not re.search(r'C[12]E', n):
                for cls in mod.classes:
                    if cls.startswith('_ZTSN') and n.startswith('_ZN' + cls[5:-1]) and re.match(r'\d', n[len('_ZN' + cls[5:-1]):]):
                        inputs += [('%s+%d' % (cls, o), fdin(A0, o), None, A0.plus(o)) for o in fields(mod, cls, FD)]
            if re.search(r'(5resetEi|10replace_fdEi)$', n):
                inputs.append(('new', A1, None, None))
            r = Own(mod, inputs)
            go(rep, 'own', f, r, cap=60000)
            rep.ok('functions that open or close', f.short())
            rep.n('places where descriptors are opened', r.nacq)
    for n in sorted(mod.fns):
        f = mod.fn(n)
        calls = {callname(I) for I in f.calls()}
        if 'io_uring_queue_init' in calls or 'io_uring_queue_init_params' in calls or 'io_uring_queue_exit' in calls:
            d = dtor_class(n)
            go(rep, 'ring', f, Ring(mod, bool(d)))
            rep.ok('ring set-up and tear-down', f.short())
        if 'regfree' in calls or 'regcomp' in calls:
            c = '_ZTSN3xtr6detail13regex_matcherE'
            o, e = mod.member(c, 'regex_')[0], mod.member(c, 'errnum_')[0]
            go(rep, 'regex', f, (Regex if dtor_class(n) else RegComp)(o, e))
            rep.ok('patterns', f.short())
    rep.need('member functions', 10)
    rep.need('destructors', 5)
    rep.need('functions that open or close', 7)
    if ctx.config.get('uring', True):
        rep.need('ring set-up and tear-down', 2)
    rep.need('patterns', 2)


# ---- memory of the queue

MMC = '_ZTSN3xtr6detail23mirrored_memory_mappingE'
MAP_SHARED, MAP_PRIVATE, MAP_FIXED, MAP_ANON = 1, 2, 16, 32
MREMAP = 3      # MREMAP_MAYMOVE | MREMAP_FIXED


def bits(fn, v, depth=0):
    """(bits known to be set, bits known to be clear) of a value"""
    full = (1 << 64) - 1
    if isinstance(v, dict):
        c = cint(v)
        if c is None:
            return 0, 0
        return c & full, ~c & full
    I = fn.inst.get(v)
    if I is None or depth > 12:
        return 0, 0
    if I.op in ('or', 'and'):
        (s1, c1), (s2, c2) = bits(fn, I.a[0], depth + 1), bits(fn, I.a[1], depth + 1)
        return (s1 | s2, c1 & c2) if I.op == 'or' else (s1 & s2, c1 | c2)
    if I.op in ('zext', 'sext', 'trunc', 'freeze'):
        return bits(fn, I.a[0], depth + 1)
    if I.op in ('phi', 'select'):
        xs = [x for x, _ in I.d['in']] if I.op == 'phi' else I.a[1:3]
        s, c = full, full
        for x in xs:
            a, b = bits(fn, x, depth + 1)
            s, c = s & a, c & b
        return s, c
    return 0, 0


R = namedtuple('R', 'parts vals')       # parts: (start, end, object); vals: 8 byte values in memory


class Region(NoC):
    """The address range of a queue: which object is mapped where"""
    def __init__(self, mod, dtor=False):
        self.mod, self.dtor = mod, dtor
        self.L = ini(A0, 8, 8) if dtor else A1
        self.A = ini(A0, 0, 8)
        self.init = R((((self.A).key(), (self.A + self.L).key(), 'q'), ((self.A + self.L).key(), (self.A + self.L.scale(2)).key(), 'q')) if dtor else (), frozenset())
        self.maps = self.unmaps = 0

    # memory
    def load(self, S, I, a, n):
        for k, v in S.user.vals:
            if n == 8 and k == a.key():
                return lin(v)

    def setv(self, S, a, v):
        k = a.key()
        S.user = S.user._replace(vals=frozenset({x for x in S.user.vals if x[0] != k} | {(k, v.key())}))

    def getv(self, S, a):
        for k, v in S.user.vals:
            if k == a.key():
                return lin(v)
        return S.read(a, 8)

    def store(self, S, I, a, v, n):
        b = self.vn.base_of(a.key())
        if n == 8 and b is not None and (b[0] == 'al' or b == ('arg', 0)):
            self.setv(S, a, v)

    # ranges
    def order(self, S, x, y):
        """x <= y"""
        d = y - x
        if S.eq(x, y):
            return True
        k = d.const()
        if k is not None:
            return k >= 0
        # a multiple of the length, which is positive
        (a, c), = d.t.items() if len(d.t) == 1 and d.c == 0 else ((None, 0),)
        return c > 0 and Lin(0, {a: 1}).key() == self.L.key()

    def cut(self, S, at):
        """split the parts at an address"""
        out = []
        for s, e, o in S.user.parts:
            s_, e_ = lin(s), lin(e)
            if not S.eq(s_, at) and not S.eq(e_, at) and self.order(S, s_, at) and self.order(S, at, e_):
                out += [(s, at.key(), o), (at.key(), e, o)]
            else:
                out.append((s, e, o))
        S.user = S.user._replace(parts=tuple(out))

    def cover(self, S, a, n):
        """indices of the parts that make up [a, a+n), or None"""
        self.cut(S, a)
        self.cut(S, a + n)
        r, at = [], a
        for _ in range(len(S.user.parts)):
            if S.eq(at, a + n):
                break
            for i, (s, e, o) in enumerate(S.user.parts):
                if S.eq(lin(s), at):
                    r.append(i)
                    at = lin(e)
                    break
            else:
                return None
        return r if S.eq(at, a + n) else None

    def put(self, S, idx, a, n, obj):
        p = [x for i, x in enumerate(S.user.parts) if i not in idx]
        p.append((a.key(), (a + n).key(), obj))
        return S.user._replace(parts=tuple(p))

    def objat(self, S, a, n):
        c = self.cover(S, a, n)
        if c is None:
            return None
        os = {S.user.parts[i][2] for i in c}
        return os.pop() if len(os) == 1 and len(c) == 1 else None

    def unmap(self, S, a, n, quiet=False):
        self.unmaps += 1
        c = self.cover(S, a, n)
        if c is None:
            return ('bad', 'memory is unmapped that does not belong to the queue')
        if self.dtor and any(S.user.parts[i][2] == 'free' for i in c):
            return ('bad', 'memory is unmapped twice')
        S.user = self.put(S, c, a, n, 'free')

    def map(self, S, I, a, n, prot, flags, fd, off, sym):
        """state and address after a successful mmap; ('bad', ..)"""
        self.maps += 1
        one, zero = bits(self.vn.fn, flags)
        if S.const(prot) is None or S.const(prot) & 3 != 3:
            return ('bad', 'the queue is not mapped for reading and writing')
        if one & MAP_FIXED:
            c = self.cover(S, a, n)
            if c is None:
                return ('bad', 'a mapping is placed over memory that was not reserved')
            if not one & MAP_SHARED or not S.eq(n, self.L):
                obj = ('private', I.id)
            elif one & MAP_ANON:
                obj = ('anon', I.id)
            elif zero & MAP_ANON:
                obj = ('file', fd.key(), off.key())
            else:
                obj = ('?', I.id)
            return self.put(S, c, a, n, obj), a
        if S.user.parts:
            return ('bad', 'a mapping is not placed at a fixed address')
        b = atom(sym)
        S.add(b, ne=-1)
        obj = ('private', I.id)
        return S.user._replace(parts=S.user.parts + ((b.key(), (b + n).key(), obj),)), b

    def call(self, S, I, name, args):
        nm = callname(I)
        if args is None or nm.startswith('llvm.'):
            return None
        if nm in ('mmap', 'mmap64'):
            r = self.map(S, I, args[0], args[1], args[2], I.a[3], args[4], args[5], ('map', I.id))
            if r[0] == 'bad':
                return r
            return [(S.user, Lin(-1)), r]
        if re.search(r'14memory_mappingC[12]EPvmiiim$', nm):
            r = self.map(S, I, args[1], args[2], args[3], I.a[4], args[5], args[6], ('map', I.id))
            if r[0] == 'bad':
                return r
            S.user = r[0]
            self.setv(S, args[0], r[1])
            self.setv(S, args[0].plus(8), args[2])
            return None
        if nm == 'mremap':
            self.maps += 1
            old, osz, nsz, new = args[0], S.const(args[1]), args[2], args[4] if len(args) > 4 else None
            if S.const(args[3]) != MREMAP or new is None:
                return ('bad', 'a mapping is not placed at a fixed address')
            if osz != 0:
                return ('bad', 'a mapping is moved, not duplicated')
            obj = self.objat(S, old, nsz)
            if obj is None or obj[0] != 'anon':
                return ('bad', 'what is duplicated is not a shared mapping of the length of the queue')
            c = self.cover(S, new, nsz)
            if c is None:
                return ('bad', 'a mapping is placed over memory that was not reserved')
            return [(S.user, Lin(-1)), (self.put(S, c, new, nsz, obj), new)]
        if nm == 'munmap':
            return self.unmap(S, args[0], args[1])
        if dtor_class(nm) == MM:
            m = self.getv(S, args[0])
            if m is None:
                m = ini(args[0], 0, 8)
            if S.eq(m, Lin(-1)):
                return None
            n = self.getv(S, args[0].plus(8))
            return self.unmap(S, m, n if n is not None else ini(args[0], 8, 8))
        return None

    def exit(self, S, I):
        if I.op not in ('ret', 'resume'):
            return None
        left = [p for p in S.user.parts if p[2] != 'free']
        if self.dtor:
            if left and not S.eq(self.A, Lin(-1)):
                return ('bad', 'memory of the queue stays mapped when it is destroyed')
            return None
        if I.op == 'resume':
            if left:
                return ('bad', 'memory stays mapped when the queue could not be created')
            return None
        a, n = self.getv(S, A0), self.getv(S, A0.plus(8))
        if a is None or n is None or not S.eq(n, self.L):
            return ('bad', 'the length of the mapping is not the length asked for')
        o1, o2 = self.objat(S, a, n), self.objat(S, a + n, n)
        if o1 is None or o2 is None or o1 == 'free' or o2 == 'free':
            return ('bad', 'not both halves of the queue are mapped')
        if o1 != o2:
            return ('bad', 'the two halves of the queue are not the same memory')
        if o1[0] not in ('anon', 'file'):
            return ('bad', 'the halves of the queue are not mapped shared')
        if len(S.user.parts) != 2:
            return ('bad', 'memory besides the queue stays mapped')


class MapCtor(NoC):
    """memory_mapping(addr, length, prot, flags, fd, offset)"""
    init = None

    def pins(self, S):
        return {S.user} if S.user is not None else frozenset()

    def call(self, S, I, name, args):
        if callname(I) in ('mmap', 'mmap64'):
            if S.user is not None or not all(S.eq(args[i], atom(('arg', i + 1))) for i in range(6)):
                return ('bad', 'mmap is not called with the arguments given')
            S.user = I.id

    def exit(self, S, I):
        r = atom(('v', S.user)) if S.user is not None else None
        if I.op == 'ret':
            v, n = S.read(A0, 8), S.read(A0.plus(8), 8)
            if r is None or v is None or not S.eq(v, r) or n is None or not S.eq(n, A2):
                return ('bad', 'the object does not hold the mapping and its length')
            if not S.nonzero(r.plus(1)):
                return ('bad', 'a mapping that failed goes unnoticed')
        elif I.op == 'resume' and r is not None and not S.eq(r, Lin(-1)):
            return ('bad', 'a mapping is lost')


RBC = re.compile(r'_ZTSN3xtr6detail24synchronized_ring_bufferILm(\d+)EEE$')


class Start(NoC):
    """the queue is empty, with all of its memory available"""
    def __init__(self, mod, what):
        c = mod.classes.get('_ZTSN3xtr4sinkE')
        o = [(m[1], m[2]) for m in c['m'] if RBC.match(m[2])]
        if len(o) != 1:
            raise Broken('queue of the sink not found')
        self.off, cls = o[0]
        self.cap = int(RBC.match(cls).group(1))
        self.f = {}
        for n in ('nwritten_', 'wrnwritten_', 'nread_plus_capacity_', 'wrnread_plus_capacity_', 'dropped_count_', 'wrbase_', 'm_'):
            m = mod.member(cls, n)
            if not m:
                raise Broken('queue member %s not found' % n)
            self.f[n] = (self.off + m[0], m[2])
        self.what = what
        self.open = mod.member('_ZTSN3xtr4sinkE', 'open_')[0]
        self.init = False
        self.n = 0

    def unwind(self, S, I):
        return 'stop'

    def call(self, S, I, name, args):
        nm = callname(I)
        if re.search(r'23mirrored_memory_mappingC[12]Emimi$', nm):
            if S.const(args[1]) != self.cap:
                return ('bad', 'the memory of the queue is not as large as its capacity')
            if S.const(args[2]) != -1:
                return ('bad', 'the memory of the queue is not its own')
            S.user = True
        return None

    def get(self, S, n):
        o, sz = self.f[n]
        return S.read(A0.plus(o), 8 if n != 'dropped_count_' else sz)

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        if self.what == 'close' and S.zero(ini(A0, self.open, 1)):
            return None
        self.n += 1
        if self.what == 'ctor' and not S.user:
            return ('bad', 'the queue has no memory')
        for n, want in (('nwritten_', 0), ('wrnwritten_', 0), ('nread_plus_capacity_', self.cap), ('wrnread_plus_capacity_', self.cap), ('dropped_count_', 0)):
            v = self.get(S, n)
            if v is None or S.const(v) != want:
                return ('bad', 'the queue does not start out empty: %s is not %d' % (n, want))
        if self.what == 'ctor':
            w, m = self.get(S, 'wrbase_'), S.read(A0.plus(self.f['m_'][0]), 8)
            if w is None or m is None or not S.eq(w, m):
                return ('bad', 'the producer does not write to the memory of the queue')


def c18(ctx, rep):
    mod = ctx.lib()
    rep.rule('member', 'construction, move, assignment, reset and destruction of memory_mapping: every mapping is afterwards held by one object with its length, or unmapped once with that length')
    rep.rule('mirror', 'the constructor of mirrored_memory_mapping leaves exactly two adjacent shared mappings of the same object, each of the length asked for, placed over memory it reserved; nothing stays mapped if it throws')
    rep.rule('unmap', 'its destructor unmaps both halves, once')
    rep.rule('start', 'a sink is constructed with an empty queue as large as its memory; a sink that is closed is left with an empty queue')
    members(ctx, rep, 'member', 'mm')
    for f in mod.find(lambda d: re.search(r'14memory_mappingC2EPvmiiim$', d['n'])):
        go(rep, 'member', f, MapCtor())
        rep.ok('member functions', 'memory_mapping constructor')
    for f in mod.find(lambda d: re.search(r'23mirrored_memory_mappingC2Emimi$', d['n'])):
        r = Region(mod)
        go(rep, 'mirror', f, r)
        rep.ok('constructors of mirrored memory', f.short())
        rep.n('mappings made', r.maps)
    for f in mod.find(lambda d: re.search(r'23mirrored_memory_mappingD2Ev$', d['n'])):
        r = Region(mod, True)
        go(rep, 'unmap', f, r)
        rep.ok('destructors of mirrored memory', f.short())
    for f in mod.find(lambda d: re.search(r'^_ZN3xtr4sinkC2ENS_11log_level_tE$', d['n'])):
        r = Start(mod, 'ctor')
        go(rep, 'start', f, r)
        rep.ok('queues created', f.short(), r.n)
    for f in mod.find(lambda d: d['n'] == '_ZN3xtr4sink5closeEv'):
        r = Start(mod, 'close')
        go(rep, 'start', f, r)
        rep.ok('queues emptied', f.short(), r.n)
    rep.need('member functions', 7)
    rep.need('constructors of mirrored memory', 1)
    rep.need('destructors of mirrored memory', 1)
    rep.need('mappings made', 4)
    rep.need('queues created', 1)
    rep.need('queues emptied', 1)
