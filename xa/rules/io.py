"""Buffer and storage rules."""
import re
from .vu import *

FS = '_ZTSN3xtr6detail6bufferE'


class Buf(Track):
    """xtr::detail::buffer.  state: (own, copied, fresh)
    own: 'data' bytes [begin, pos) wait to be submitted (or may), 'clean' nothing
         waits, 'spent' the buffer was handed to the storage
    copied: key of the end of the last copy, to be stored in pos_
    fresh: id of an allocate_buffer call whose result is not yet installed
    tracks: 0 = next byte of the line to copy"""

    def __init__(self, line):
        self.line = line
        self.copies = 0

    def disjoint(self, b1, b2):
        # the buffers of the storage are not part of the buffer object
        return ('arg', 0) in (b1, b2)

    def f(self, S, n):
        for k, v in S.mem.items():
            if ends(self.vn.names.get(k) or '', 'buffer::' + n, 'buf.' + n) and self.vn.base_of(k[0]) == ('arg', 0):
                return v
        return None

    def eqf(self, S):
        p, b = self.f(S, 'pos_'), self.f(S, 'begin_')
        return p is not None and b is not None and S.eq(p, b)

    def branch(self, S, B, T):
        own, cp, fr = S.user[0]
        if own == 'data' and self.eqf(S):
            self.state(S, ('clean', cp, fr))

    def installed(self, S):
        """the result of allocate_buffer is in place"""
        own, cp, fr = S.user[0]
        if fr is None:
            return None
        d = atom(('ev', atom(('v', fr)).key(), (0,)))
        n = atom(('ev', atom(('v', fr)).key(), (1,)))
        p, b, e = self.f(S, 'pos_'), self.f(S, 'begin_'), self.f(S, 'end_')
        if b is None or not S.eq(b, d):
            return ('bad', 'begin_ is not the start of the buffer that the storage allocated')
        if e is None or not S.eq(e, d + n):
            return ('bad', 'end_ is not the end of the buffer that the storage allocated')
        if p is None or not S.eq(p, d):
            return ('bad', 'writing does not start at the start of the buffer that the storage allocated')
        self.state(S, (own, cp, None))

    def call(self, S, I, name, args):
        own, cp, fr = S.user[0]
        v = vcall(I)
        if v and v[0] == 'storage_interface':
            if v[1] == 'submit_buffer':
                if own == 'spent':
                    return ('bad', 'a buffer is submitted twice')
                r = self.installed(S)
                if r:
                    return r
                p, b = self.f(S, 'pos_'), self.f(S, 'begin_')
                if p is None or b is None or not S.eq(args[1], b) or not S.eq(args[2], p - b):
                    return ('bad', 'what is submitted to the storage is not [begin_, pos_)')
                if cp is not None:
                    return ('bad', 'a buffer is submitted before its end was moved past the last copy')
                self.state(S, ('spent', None, None))
            elif v[1] == 'allocate_buffer':
                if own == 'data':
                    return ('bad', 'a new buffer is allocated while the current one may hold lines that were not submitted')
                if own == 'spent' and not self.eqf(S):
                    return ('bad', 'the buffer would be submitted a second time if allocating the next one fails')
                self.state(S, ('clean', None, I.id))
            return None
        if args and re.match(r'llvm\.mem(cpy|move)|mem(cpy|move)$', name):
            return self.copy(S, I, args[0], args[1], args[2])
        return None

    def copy(self, S, I, dst, src, n):
        own, cp, fr = S.user[0]
        p = self.f(S, 'pos_')
        if p is None or not S.eq(dst, p):
            nm = None
            if p is not None and (dst - p).const() is not None:
                return ('bad', 'bytes are not copied to the current position of the buffer')
            return None
        r = self.installed(S)
        if r:
            return r
        own = S.user[0][0]
        if own == 'spent':
            return ('bad', 'bytes are copied into a buffer that was submitted')
        e = self.f(S, 'end_')
        if e is None or S.rng(e - p - n)[0] < 0:
            return ('bad', 'bytes may be copied past the end of the buffer')
        if self.line:
            self.copies += 1
            if not self.qeq(S, 0, src):
                return ('bad', 'the bytes copied are not the next bytes of the line')
            d, l = self.ln(S)
            if d is None or S.rng(d + l - src - n)[0] < 0:
                return ('bad', 'bytes past the end of the line may be copied')
            self.qset(S, 0, src + n)
        self.state(S, ('data', (dst + n).key(), None))

    def ln(self, S):
        d, l = atom(('m', (0, frozenset([(('arg', 0), 1)])), 8)), None
        for k, v in S.mem.items():
            nm = self.vn.names.get(k) or ''
            if ends(nm, 'line._M_string_length') and self.vn.base_of(k[0]) == ('arg', 0):
                l = v
            if ends(nm, 'line._M_dataplus._M_p') and self.vn.base_of(k[0]) == ('arg', 0):
                d = v
        return (d, l) if l is not None else (None, None)

    def store(self, S, I, a, v, n):
        own, cp, fr = S.user[0]
        nm = fname(I)
        if self.vn.base_of(a.key()) == ('arg', 0):
            if ends(nm, 'buffer::pos_'):
                if cp is not None and S.eq(v, Lin(cp[0], dict(cp[1]))):
                    self.state(S, ('data', None, fr))
                    return None
                if own == 'data':
                    return ('bad', 'the position in the buffer is changed other than past the bytes that were copied')
            elif ends(nm, 'buffer::begin_'):
                if own == 'data':
                    return ('bad', 'the buffer is replaced while it may hold lines that were not submitted')
            elif ends(nm, 'line._M_string_length') and self.line:
                d, l = self.ln(S)
                # (never more than all of it: copies are checked against the end of the line)
                if S.const(v) == 0 and (d is None or not any(S.rng(x - d - l)[0] >= 0 for x in self.q(S, 0))):
                    return ('bad', 'the line is cleared before all of it was copied into buffers')
        p = self.f(S, 'pos_')
        if p is not None and n == 1 and S.eq(a, p) and not nm:
            s = single_sym(v)
            src = None
            for k, x in S.mem.items():
                if k[1] == 1 and x == v:
                    src = Lin(k[0][0], dict(k[0][1]))
            if src is not None:
                return self.copy(S, I, a, src, Lin(1))
        return None

    def exit(self, S, I):
        own, cp, fr = S.user[0]
        r = self.installed(S) if I.op == 'ret' else None
        if r:
            return r
        if cp is not None:
            return ('bad', 'bytes were copied into the buffer but its position was not moved past them')
        if own == 'spent' and not self.eqf(S):
            return ('bad', 'a submitted buffer stays in use and would be submitted again')
        if self.line and I.op == 'ret' and not any(ends(self.vn.names.get(k) or '', 'line._M_string_length') and S.zero(v) for k, v in S.mem.items()):
            return ('bad', 'the line is not cleared after it was copied into buffers')


class Writer(Track):
    """posix submit_buffer(data, size): tracks 0 = next byte, 1 = bytes left"""
    init = None

    def __init__(self):
        self.writes = 0

    def q(self, S, i):
        # next byte + bytes left == end of the buffer
        end = atom(('arg', 1)) + atom(('arg', 2))
        return Track.q(self, S, i) + [end - x for x in Track.q(self, S, 1 - i)]

    def call(self, S, I, name, args):
        if name in ('write', 'pwrite', 'writev', 'send'):
            self.writes += 1
            if name != 'write':
                return ('bad', '%s is used instead of write' % name)
            if not ends(term_name(self.vn, args[0]), 'fd_.fd_', 'fd_'):
                return ('bad', 'write is not called on the file descriptor of the storage')
            if not self.qeq(S, 0, args[1]):
                return ('bad', 'the bytes written are not the next bytes of the buffer')
            if not self.qeq(S, 1, args[2]):
                return ('bad', 'the number of bytes written is not what is left of the buffer')
            self.state(S, ('wrote', I.id))
            return None
        if re.search(r'throw_system_error', name):
            st = S.user[0]
            if st and st[0] == 'wrote':
                if S.const(atom(('v', st[1]))) != -1:
                    return ('bad', 'reports an error although write did not fail')
                if not errno_not(self.vn, S, 4):
                    return ('bad', 'an interrupted write is not repeated but reported as an error')
                self.state(S, ('failed', st[1]))
        return None

    def settle(self, S):
        """account for the last write once its result is known"""
        st = S.user[0]
        if not st or st[0] != 'wrote':
            return
        r = atom(('v', st[1]))
        lo, hi, ex = S.rng(r)
        if lo == hi == -1:
            return
        if -1 in ex or lo > -1:
            q0, q1 = self.q(S, 0), self.q(S, 1)
            self.qset(S, 0, *[x + r for x in q0])
            self.qset(S, 1, *[x - r for x in q1])
            self.state(S, None)

    def branch(self, S, B, T):
        self.settle(S)

    def header(self, S, B):
        self.settle(S)
        st = S.user[0]
        if st and st[0] == 'wrote':
            # retried: nothing was written
            if S.const(atom(('v', st[1]))) != -1:
                self.vn.viol.append(('goes on although the result of write is not known', B.insts[0], trace(S.node)))
            self.state(S, None)
        Track.header(self, S, B)

    def exit(self, S, I):
        self.settle(S)
        if I.op != 'ret':
            return None
        st = S.user[0]
        if st and st[0] == 'failed':
            return None
        if st and st[0] == 'wrote':
            if S.const(atom(('v', st[1]))) == -1:
                return ('bad', 'returns without an error although write failed')
        if not any(S.zero(x) or S.rng(x)[1] <= 0 for x in self.q(S, 1)):
            return ('bad', 'returns although bytes may be left to write')


from ..sim import trace


def c12(ctx, rep):
    rep.rule('buffer', 'typestate of the line buffer: [begin_, pos_) is submitted once, with exactly these bounds, before the buffer is replaced; copies go to pos_, stay below end_ and move pos_ past them; a spent buffer is unreachable even if allocating the next one throws')
    rep.rule('line', 'append_line copies the bytes of the line in order, completely, and clears it')
    rep.rule('posix', 'posix submit_buffer: each write gets exactly the remaining bytes; returns only when none are left or after throwing; EINTR retried')
    mod = ctx.lib()
    for nm, line in (('flush', 0), ('append_line', 1), ('next_buffer', 0), ('~buffer', 0)):
        fs = mod.by_dem(r'^xtr::detail::buffer::%s\(\)$' % re.escape(nm))
        if not fs:
            if nm == 'next_buffer':
                continue
            raise Broken('xtr::detail::buffer::%s not found' % nm)
        for fn in fs:
            R = Buf(line)
            d = atom(('m', (0, frozenset([(('arg', 0), 1)])), 8))
            go(rep, 'line' if line else 'buffer', fn, R, init=(('data', None, None), Track.track(d)))
            rep.ok('buffer_functions', fn.short())
            if line:
                rep.n('line_copies', R.copies)
    rep.need('buffer_functions', 3)
    rep.need('line_copies', 1)
    for vt in storages(mod):
        if 'uring' in vt:
            continue
        f = method(mod, vt, 'submit_buffer')
        R = Writer()
        go(rep, 'posix', f, R, init=(None, Track.track(atom(('arg', 1)), atom(('arg', 2)))))
        rep.ok('write_loops', f.short())
        rep.n('write_calls', R.writes)
    rep.need('write_calls', 1)


# ---------------------------------------------------------------- io_uring
from collections import namedtuple
RU = namedtuple('RU', 'bal wait cq D R duty fields sq unsub own')
IU = '_ZTSN3xtr19io_uring_fd_storageE'
IB = '_ZTSN3xtr19io_uring_fd_storage6bufferE'
# offsets of the kernel interface
SQ_OP, SQ_FLAGS, SQ_FD, SQ_OFF, SQ_ADDR, SQ_LEN, SQ_DATA = 0, 1, 4, 8, 16, 24, 32
OP_WRITE = (5, 23)          # IORING_OP_WRITE_FIXED, IORING_OP_WRITE
OP_CLOSE = 19
DRAIN = 2
EAGAIN, EINTR = 11, 4
EINTR = 4


class Ring(Rule):
    """submissions and completions of the io_uring storage.

    bal    change of pending_cqe_count_ - entries prepared + completions consumed
    wait   id of the last call that waits for a completion
    cq     state of the completion: None, 'have' (delivered), 'seen' (given back)
    D, R   keys of its user data and result
    duty   what is still owed for D: None, 'open', 'done'
    fields members of the buffer D: current values
    sq     (id of the call that returned the entry, {(offset, value)}) or None
    unsub  entries may have been prepared and not submitted in this function
    own    number of write entries prepared for the buffer passed to submit_buffer
    """
    init = RU(0, None, None, None, None, None, frozenset(), None, False, 0)

    def __init__(self, mod, kind):
        self.kind = kind
        self.b = {n: self.off(mod, IB, n) for n in ('index_', 'size_', 'offset_', 'file_offset_', 'next_', 'data_')}
        self.count = {'prepared': 0, 'consumed': 0, 'freed': 0, 'resubmitted': 0, 'closed': 0, 'submits': 0}
        self.cqal = set()
        self.sets = set()

    @staticmethod
    def off(mod, cls, n):
        m = mod.member(cls, n)
        if m is None:
            raise Broken('member %s not found' % n)
        return m[0]

    def role(self, I, S):
        f = callee_field(self.vn, I, S) or (I.callee or '')
        m = re.search(r'io_uring_(submit|get_sqe|wait_cqe|peek_cqe|sqring_wait)\w*$', f)
        return m.group(1) if m else None

    def clobber(self, S, I, name):
        r = self.role(I, S)
        if r in ('wait_cqe', 'peek_cqe'):
            return {('al', x) for x in self.cqal}
        if r:
            return 'none'
        return None

    def unwind(self, S, I):
        return 'stop'

    def disjoint(self, b1, b2):
        # the storage object, its buffers and the entries of the ring
        if ('arg', 0) in (b1, b2) or ('arg', 1) in (b1, b2):
            return True
        return any(b[0] == 'v' and self.isget(b[1]) for b in (b1, b2))

    def isget(self, i):
        I = self.vn.fn.inst.get(i)
        return I is not None and I.is_call and re.search(r'get_sqe', callee_field(self.vn, I, None) or (I.callee or ''))

    def old(self, o):
        return atom(('old', o))

    def fld(self, S, o):
        for k, v in S.user.fields:
            if k == o:
                return Lin(v[0], dict(v[1]))
        return self.old(o)

    def setfld(self, S, o, v):
        S.user = S.user._replace(fields=frozenset(x for x in S.user.fields if x[0] != o) | {(o, v.key())})

    @staticmethod
    def lin(k):
        return Lin(k[0], dict(k[1]))

    # -- completions
    def call(self, S, I, name, args):
        r = self.role(I, S)
        if r is None:
            return None
        u = S.user
        if r in ('wait_cqe', 'peek_cqe'):
            if u.sq:
                b = self.finish(S, I)
                if b:
                    return b
                u = S.user
            if u.unsub:
                return ('bad', 'waits for a completion although an entry was prepared and not submitted')
            b = self.settled(S)
            if b:
                return b
            for a in args[1:]:
                s = single_sym(a)
                if s and s[0] == 'al':
                    self.cqal.add(s[1])
            S.user = S.user._replace(wait=I.id, cq=None, D=None, R=None, duty=None, fields=frozenset())
            self.vn.forget(S, lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == 'old')
        elif r == 'get_sqe':
            b = self.finish(S, I)
            if b:
                return b
            S.user = S.user._replace(sq=(I.id, frozenset()))
        elif r == 'submit':
            self.count['submits'] += 1
            b = self.finish(S, I)
            if b:
                return b
            S.user = S.user._replace(unsub=False)
        return None

    def settled(self, S):
        u = S.user
        if u.duty == 'open' and not S.zero(self.lin(u.D)):
            return ('bad', 'the buffer of a completed write is neither returned to the free list nor submitted again')
        if u.cq == 'have':
            return ('bad', 'a completion is not given back to the kernel')
        return None

    def cqe(self, S, a):
        """offset into the current completion"""
        u = S.user
        if u.wait is None:
            return None
        for al in self.cqal:
            p = S.read(atom(('al', al)), 8)
            if p is not None:
                d = (a - p).const()
                if d is not None and 0 <= d < 16:
                    return d
        return None

    def load(self, S, I, a, n):
        u = S.user
        d = self.cqe(S, a)
        if d is not None:
            if not S.zero(atom(('v', u.wait))):
                return ('bad', 'a completion is read although waiting for it failed')
            if u.cq == 'seen':
                return ('bad', 'a completion is read after it was given back to the kernel')
            t = self.vn.fresh(S, I)
            u = S.user
            if d == 0:
                if u.D:
                    return self.lin(u.D)
                S.user = u._replace(cq='have', D=t.key(), duty='open')
                return t
            if d == 8:
                if u.R:
                    return self.lin(u.R)
                S.user = u._replace(cq='have', R=t.key())
                return t
            return t
        if u.D:
            d = (a - self.lin(u.D)).const()
            if d in self.b.values() and d != self.b['data_']:
                if u.duty == 'done':
                    return None
                return self.fld(S, d)
        return None

    def store(self, S, I, a, v, n):
        u = S.user
        nm = fname(I)
        if ends(nm, 'pending_cqe_count_'):
            p = S.read(a, n)
            if p is None:
                p = self.vn.initial(S, I, a, n) if False else atom(('m', a.key(), n))
            d = (v - p).const()
            if d is None:
                return ('bad', 'the number of pending completions is not counted up or down')
            S.user = u._replace(bal=u.bal + d)
            if abs(u.bal + d) > 3:
                return ('bad', 'the number of pending completions drifts from the number of entries in flight')
            return None
        s = single_sym(a)
        if s is not None and a.c == 0 and ends(sym_name(self.vn, s), 'cq.khead'):
            if u.cq == 'seen':
                return ('bad', 'a completion is given back to the kernel twice')
            if u.wait is None or not S.zero(atom(('v', u.wait))):
                return ('bad', 'a completion is consumed although none was delivered')
            p = S.read(a, n)
            if p is not None and (v - p).const() != 1:
                return ('bad', 'other than one completion is given back to the kernel')
            if not u.D:
                return ('bad', 'a completion is given back to the kernel before its user data was read')
            if not u.R:
                return ('bad', 'a completion is given back to the kernel before its result was read')
            self.count['consumed'] += 1
            S.user = u._replace(cq='seen', bal=u.bal + 1)
            return None
        if u.sq:
            d = (a - atom(('v', u.sq[0]))).const()
            if d is not None and 0 <= d < 64:
                S.user = u._replace(sq=(u.sq[0], frozenset(x for x in u.sq[1] if x[0] != d) | {(d, v.key())}))
                return None
        if ends(nm, 'free_list_'):
            if u.D and S.eq(v, self.lin(u.D)):
                return self.freed(S, I, a)
            return self.popped(S, I, a, v)
        if u.D:
            d = (a - self.lin(u.D)).const()
            if d in self.b.values() and d != self.b['data_']:
                if u.duty == 'done':
                    return None
                self.setfld(S, d, v)
        if self.kind == 'submit':
            d = (a - self.B()).const()
            if d in self.b.values():
                self.sets.add(d)
            if ends(nm, 'io_uring_fd_storage::offset_'):
                p = S.read(a, n) or atom(('m', a.key(), n))
                if not S.eq(v - p, atom(('arg', 2))):
                    return ('bad', 'the position in the file does not advance by the size of the buffer')
                S.user = S.user._replace(own=S.user.own + 10)
        return None

    def popped(self, S, I, a, v):
        if self.kind != 'allocate':
            return ('bad', 'the free list is changed other than by returning the buffer of a completed write')
        p = S.read(a, 8)
        if p is None or not S.nonzero(p):
            return ('bad', 'a buffer is taken from an empty free list')
        nx = S.read(p.plus(self.b['next_']), 8)
        if nx is None or not S.eq(v, nx):
            return ('bad', 'buffers of the free list are lost')
        S.user = S.user._replace(own=p.key())

    def freed(self, S, I, a):
        u = S.user
        if u.duty != 'open' or u.cq != 'seen':
            return ('bad', 'a buffer is returned to the free list twice or while its write is in flight')
        p = S.read(a, 8)
        nx = self.fld(S, self.b['next_'])
        if p is None or not S.eq(nx, p):
            return ('bad', 'buffers of the free list are lost')
        if not S.nonzero(self.lin(u.D)):
            return ('bad', 'a null buffer is put on the free list')
        R, size = self.lin(u.R), self.old(self.b['size_'])
        lo, hi, ex = S.rng(R)
        if not (S.eq(R, size) or hi < 0 and (-EAGAIN in ex or lo > -EAGAIN or hi < -EAGAIN)):
            return ('bad', 'a buffer is freed although some of its bytes may not have been written and no error was reported')
        self.count['freed'] += 1
        S.user = u._replace(duty='done')

    # -- submissions
    def B(self):
        return atom(('arg', 1)).plus(-self.b['data_'])

    def finish(self, S, I):
        """the entry being prepared, if any, is complete"""
        u = S.user
        if not u.sq:
            return None
        e = atom(('v', u.sq[0]))
        f = {o: self.lin(k) for o, k in u.sq[1]}
        if not f:
            if S.zero(e):
                S.user = u._replace(sq=None)
                return None
            return ('bad', 'a submission queue entry is taken and not filled in')
        if SQ_OP not in f or SQ_DATA not in f or SQ_FD not in f:
            return ('bad', 'a submission queue entry is used without setting its %s' % ('user data' if SQ_DATA not in f else 'operation'))
        op = S.const(f[SQ_OP])
        self.count['prepared'] += 1
        if op in OP_WRITE:
            b = self.write(S, f)
        elif op == OP_CLOSE:
            b = self.close(S, f)
        else:
            b = ('bad', 'an operation other than write and close is submitted')
        if b:
            return b
        u = S.user
        S.user = u._replace(sq=None, unsub=True, bal=u.bal - 1)
        if abs(u.bal - 1) > 3:
            return ('bad', 'the number of pending completions drifts from the number of entries in flight')
        return None

    def close(self, S, f):
        self.count['closed'] += 1
        if not S.zero(f[SQ_DATA]):
            return ('bad', 'the user data of a close operation is not null')
        fl = f.get(SQ_FLAGS)
        c = S.const(fl) if fl is not None else None
        if c is None or not c & DRAIN:
            return ('bad', 'a file descriptor is closed without waiting for earlier writes')
        return None

    def write(self, S, f):
        u = S.user
        D = f[SQ_DATA]
        if not ends(term_name(self.vn, f[SQ_FD]) or '', 'fd_.fd_', 'fd_'):
            return ('bad', 'a write is not submitted for the file descriptor of the storage')
        for x in (SQ_OFF, SQ_ADDR, SQ_LEN):
            if x not in f:
                return ('bad', 'a write is submitted without setting its offset, address or length')
        bo = self.b
        if u.D and S.eq(D, self.lin(u.D)):
            if u.duty != 'open' or u.cq != 'seen':
                return ('bad', 'a buffer is submitted although it was freed or is in flight')
            g = lambda n: self.fld(S, bo[n])
            R = self.lin(u.R)
            n = Lin(0) if S.const(R) in (-EAGAIN, -EINTR) else R
            lo, hi, ex = S.rng(R)
            if S.const(R) not in (-EAGAIN, -EINTR) and lo < 0:
                return ('bad', 'a write that failed is submitted again')
            for fl, sg, what in (('size_', -1, 'length'), ('offset_', 1, 'address'), ('file_offset_', 1, 'file offset')):
                if not S.eq(g(fl), self.old(bo[fl]) + n.scale(sg)):
                    return ('bad', 'the %s of the rest of a short write is wrong' % what)
            if not S.eq(f[SQ_LEN], g('size_')):
                return ('bad', 'the length of the rest of a short write is wrong')
            if not S.eq(f[SQ_ADDR], D.plus(bo['data_']) + g('offset_')):
                return ('bad', 'the address of the rest of a short write is wrong')
            if not S.eq(f[SQ_OFF], g('file_offset_')):
                return ('bad', 'the file offset of the rest of a short write is wrong')
            self.count['resubmitted'] += 1
            S.user = u._replace(duty='done')
            return None
        if self.kind != 'submit' or not S.eq(D, self.B()):
            return ('bad', 'the user data of a write is not the buffer that is written')
        B = self.B()
        m = lambda n, w: S.read(B.plus(bo[n]), w)
        size = m('size_', 4)
        if size is None or not S.eq(f[SQ_LEN], size) or not self.is_size(size):
            return ('bad', 'the length of a write is not the size of the buffer')
        o = S.read(B.plus(bo['offset_']), 8)
        o = o if o is not None else atom(('m', B.plus(bo['offset_']).key(), 8))
        if S.eq(f[SQ_ADDR], atom(('arg', 1)) + o) and not S.zero(o):
            # right if allocate_buffer sets it to zero
            self.sets.add('uses offset_')
        elif not S.eq(f[SQ_ADDR], atom(('arg', 1))):
            return ('bad', 'the address of a write is not the data of the buffer')
        fo = m('file_offset_', 8)
        if fo is None or not S.eq(f[SQ_OFF], fo):
            return ('bad', 'the file offset of a write is not that of the buffer')
        S.user = u._replace(own=u.own + 1)
        return None

    def is_size(self, l):
        s = single_sym(l)
        while s and s[0] == 'trunc' and l.c == 0:
            l = self.lin(s[2])
            s = single_sym(l)
        return l == atom(('arg', 2))

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        b = self.finish(S, I) or self.settled(S)
        if b:
            return b
        u = S.user
        if u.bal != 0:
            return ('bad', 'the number of pending completions differs from the number of entries in flight')
        if u.unsub and not (self.kind == 'submit' and self.batched(S)):
            return ('bad', 'an entry is prepared and not submitted')
        if self.kind == 'submit' and u.own != 11:
            return ('bad', 'a buffer is not submitted exactly once with the file position advanced past it')
        if self.kind == 'allocate':
            return self.allocated(S, I)

    def batched(self, S):
        for k, (lo, hi, ex) in S.facts.items():
            if (0 in ex or lo > 0) and len(k) == 1:
                (a, c), = k
                if a[0] in ('urem', 'and') and self.vn.deep(a, lambda x: isinstance(x, tuple) and len(x) > 1 and x[0] in ('m', 'v', 'h', 'o') and ends(sym_name(self.vn, x), 'batch_size_')):
                    return True
        return False

    def allocated(self, S, I):
        u = S.user
        if u.own == 0:
            return ('bad', 'a buffer is handed out that was not taken from the free list')
        B = self.lin(u.own)
        bo = self.b
        r = self.vn.ret(S, I)
        if not r or not S.eq(r[0], B.plus(bo['data_'])):
            return ('bad', 'the memory handed out is not that of the buffer taken from the free list')
        if not ends(term_name(self.vn, r[1]) or '', 'buffer_capacity_'):
            return ('bad', 'the size handed out is not the capacity of the buffer')
        o = S.read(B.plus(bo['offset_']), 8)
        if o is None or not S.zero(o):
            self.sets.add('no offset_')
        f = S.read(B.plus(bo['file_offset_']), 8)
        if f is None or not ends(term_name(self.vn, f) or '', 'io_uring_fd_storage::offset_'):
            self.sets.add('no file_offset_')


class Batch(Rule):
    def __init__(self, q):
        self.q, self.n = q, 0

    def nonneg(self, a):
        return a[0] == 'arg'

    def store(self, S, I, a, v, n):
        if ends(fname(I), 'batch_size_'):
            self.n += 1
            if S.rng(v)[0] < 1:
                return ('bad', 'the batch size may be zero')
            if S.rng(self.q - v)[0] < 0 and S.const(v) != 1:
                return ('bad', 'the batch size may exceed the number of buffers, so that all of them wait to be submitted')

    def unwind(self, S, I):
        return 'stop'


def c13(ctx, rep):
    rep.rule('balance', 'pending_cqe_count_ changes by entries prepared minus completions consumed on every path of every function that uses the ring')
    rep.rule('entry', 'every submission queue entry taken is filled in: operation, file descriptor, user data; write entries describe exactly the remaining bytes of the buffer in their user data')
    rep.rule('completion', 'every completion is read before it is given back, once; its buffer is either freed (all bytes written, or a reported error) or submitted again for exactly the bytes left')
    rep.rule('batch', '1 <= batch_size_ <= number of buffers')
    mod = ctx.lib()
    tot = {}
    sets = set()
    kinds = (('submit_buffer', 'submit'), ('allocate_buffer', 'allocate'), ('replace_fd', 'replace'), ('sync', 'sync'), ('flush', 'flush'), ('~io_uring_fd_storage', 'dtor'))
    for nm, kind in kinds:
        fs = mod.by_dem(r'^xtr::io_uring_fd_storage::%s\(' % re.escape(nm))
        fs = [f for f in fs if not f.name.endswith('D0Ev')]
        if not fs:
            raise Broken('io_uring_fd_storage::%s not found' % nm)
        for fn in fs:
            R = Ring(mod, kind)
            go(rep, 'balance', fn, R, init=Ring.init)
            rep.ok('ring_functions', fn.short())
            for k, v in R.count.items():
                tot[k] = tot.get(k, 0) + v
            sets |= R.sets
            rep.n('members_set', len(R.sets))
    b = Ring(mod, 'x').b
    for n in ('offset_', 'file_offset_'):
        if 'no ' + n in sets and b[n] not in sets:
            rep.bad('entry', 'src/io_uring_fd_storage.cpp', '%s of a buffer is not initialised when it is handed out or submitted' % n)
    if 'no offset_' in sets and 'uses offset_' in sets:
        rep.bad('entry', 'src/io_uring_fd_storage.cpp', 'the address of a write depends on offset_ of a buffer, which is not set to zero when the buffer is handed out')
    for k in tot:
        rep.n('ring_' + k, tot[k])
    rep.need('ring_functions', 6)
    for k in ('prepared', 'consumed', 'freed', 'resubmitted', 'closed'):
        rep.need('ring_' + k, 1)
    n = 0
    for fn in mod.by_dem(r'^xtr::io_uring_fd_storage::io_uring_fd_storage\('):
        q = [i for i in range(len(fn.args))]
        R = Batch(atom(('arg', 4)))
        go(rep, 'batch', fn, R)
        n += R.n
    rep.n('batch_size_stores', n)
    rep.need('batch_size_stores', 1)


# ---------------------------------------------------------------- reopening
O_WRONLY, O_CREAT, O_TRUNC, O_APPEND = 1, 0o100, 0o1000, 0o2000
FSB = '_ZTSN3xtr6detail15fd_storage_baseE'
FID = {0: 'status', 1: 'set_level', 2: 'sink_info', 3: 'success', 4: 'error', 5: 'reopen'}


def callname(I):
    c = I.d.get('callee')
    return I.callee or (c.get('n') if isinstance(c, dict) else '') or ''


class Reopen(Rule):
    """fd_storage_base::reopen: (id of the last open, replaced)"""
    init = (None, False)

    def __init__(self):
        self.opens = 0

    def call(self, S, I, name, args):
        op, rp = S.user
        if name in ('open', 'open64', 'openat', 'creat'):
            self.opens += 1
            if op is not None and S.rng(atom(('v', op)))[1] >= 0:
                return ('bad', 'a file that was opened is forgotten')
            if op is not None and errno_not(self.vn, S, 4):
                return ('bad', 'opening is repeated after an error other than an interruption')
            if name in ('openat', 'creat'):
                return ('bad', 'the log file is not opened for appending')
            if not ends(term_name(self.vn, args[0]) or '', 'reopen_path_._M_dataplus._M_p'):
                return ('bad', 'the file opened is not the reopen path')
            fl = S.const(args[1])
            if fl is None or fl & O_APPEND == 0 or fl & 3 != O_WRONLY or fl & O_CREAT == 0 or fl & O_TRUNC:
                return ('bad', 'the log file is not opened for appending, created if missing and left untruncated')
            S.user = (I.id, False)
            return None
        v = vcall(I)
        if v and v[1] == 'replace_fd' or re.search(r'10replace_fdEi$', name):
            if op is None or not S.eq(args[1], atom(('v', op))):
                return ('bad', 'the file descriptor installed is not that of the file that was opened')
            if not S.nonzero(args[1].plus(1)):
                return ('bad', 'the current file is replaced although opening the new one may have failed')
            S.user = (op, True)
            return None
        if name == 'close':
            return ('bad', 'a file is closed while reopening, outside replace_fd')
        return None

    def unwind(self, S, I):
        return 'stop'

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        op, rp = S.user
        r = S.t(I.a[0])
        if rp:
            if not S.zero(r):
                return ('bad', 'an error is reported although the file was reopened')
            return None
        if op is not None:
            if S.rng(atom(('v', op)))[1] >= 0:
                return ('bad', 'the file was opened but is not used')
            s = single_sym(r)
            if not errno_not(self.vn, S, 4):
                return ('bad', 'gives up when opening the file is interrupted')
            if not (s and r.c == 0 and is_errno(self.vn, s)) and not S.nonzero(r):
                return ('bad', 'success is reported although the file could not be opened')
            return None
        if not S.nonzero(r):
            return ('bad', 'success is reported although no file was opened')


class ReplaceFd(Rule):
    """fd_storage_base::replace_fd: number of times the old descriptor was closed"""
    init = 0

    def call(self, S, I, name, args):
        if name == 'close':
            if not ends(term_name(self.vn, args[0]) or '', 'fd_.fd_', 'fd_'):
                return ('bad', 'the file descriptor closed is not the old one')
            if S.user:
                return ('bad', 'the old file descriptor is closed twice')
            S.user = 1
        return None

    def unwind(self, S, I):
        return 'stop'

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        return installed_fd(self, S) or self.old(S)

    def old(self, S):
        if not S.user:
            for k, v in list(S.facts.items()):
                if v[0] == v[1] == -1 and any(ends(sym_name(self.vn, a) or '', 'fd_.fd_') for a, _ in k):
                    return None
            return ('bad', 'the old file descriptor is not closed')


def installed_fd(rule, S):
    for k, v in S.mem.items():
        if ends(rule.vn.names.get(k) or '', 'fd_.fd_', 'fd_') and rule.vn.base_of(k[0]) == ('arg', 0):
            if S.eq(v, atom(('arg', 1))):
                return None
    return ('bad', 'the new file descriptor is not installed')


class RingReplace(Ring):
    def __init__(self, mod):
        Ring.__init__(self, mod, 'replace')

    def call(self, S, I, name, args):
        if name == 'close':
            return ('bad', 'the old file descriptor is closed directly although writes to it may be in flight')
        return Ring.call(self, S, I, name, args)

    def close(self, S, f):
        b = Ring.close(self, S, f)
        if b:
            return b
        if S.eq(f[SQ_FD], atom(('arg', 1))) or not ends(term_name(self.vn, f[SQ_FD]) or '', 'fd_.fd_', 'fd_'):
            return ('bad', 'the file descriptor closed is not the old one')
        S.user = S.user._replace(own=S.user.own + 1)

    def exit(self, S, I):
        b = Ring.exit(self, S, I)
        if b or I.op != 'ret':
            return b
        if S.user.own != 1:
            return ('bad', 'the old file descriptor is not closed exactly once')
        return installed_fd(self, S)


def reply_clobber(vn, S, I, name):
    """functions of the table of replies change that table only"""
    if re.match(r'_ZNK?St(13unordered_map|6vector)I(iN3xtr6detail18command_dispatcher15callback_resultE|N3xtr6detail18command_dispatcher6bufferE)', name):
        b = vn.base_of(S.t(I.a[0]).key())
        return frozenset([b] if b else [])
    return None


def sent_frame(vn, S, I, name, args):
    """id of the frame queued as a reply by this call"""
    p = None
    if re.match(r'_ZNSt6vectorIN3xtr6detail18command_dispatcher6bufferE.*emplace_back', name):
        for a in args[1:]:
            q = S.read(a, 8)
            if q is not None and single_sym(q) and single_sym(q)[0] == 'al':
                p = q
    elif re.match(r'_ZN3xtr6detail18command_dispatcher4sendE', name):
        p = args[2]
    else:
        return None
    if p is None:
        return -1
    # the whole message is sent, from its start
    n = args[3] if '4sendE' in name else next((q for q in (S.read(a, 8) for a in args[1:]) if q is not None and q.const() is not None), None)
    al = single_sym(p)
    if n is None or al is None or al[0] != 'al' or S.const(n) != vn.fn.inst[al[1]].d.get('sz'):
        return -1
    v = S.read(p, 4)
    c = S.const(v) if v is not None else None
    return -1 if c is None else c


class ReopenCmd(Rule):
    """reopen_handler: (drained, flushed, excused, id of the reopen call, reply)"""
    init = (False, False, False, None, None)

    def clobber(self, S, I, name):
        return reply_clobber(self.vn, S, I, name)

    def __init__(self):
        self.n = 0

    def f(self, S, n):
        for k, v in S.mem.items():
            if ends(self.vn.names.get(k) or '', 'buf.' + n):
                return v
        return None

    def branch(self, S, B, T):
        d, fl, ex, r, rp = S.user
        p, b = self.f(S, 'pos_'), self.f(S, 'begin_')
        if not d and p is not None and b is not None and S.eq(p, b):
            S.user = (True, fl, ex, r, rp)

    def unwind(self, S, I):
        v = vcall(I)
        d, fl, ex, r, rp = S.user
        if v and v[0] == 'storage_interface':
            S.user = (d, fl, True, r, rp)
            return None
        return 'stop'

    def call(self, S, I, name, args):
        v = vcall(I)
        d, fl, ex, r, rp = S.user
        if v and v[0] == 'storage_interface':
            if v[1] == 'submit_buffer':
                S.user = (True, False, ex, r, rp)
            elif v[1] == 'flush':
                S.user = (d, d, ex, r, rp)
            elif v[1] == 'reopen':
                self.n += 1
                if r is not None:
                    return ('bad', 'reopens twice')
                if not ex and not d:
                    return ('bad', 'the file is reopened before lines logged earlier were submitted to the old file')
                if not ex and not fl and not any(ends(self.vn.names.get(k) or '', 'storage_._M_t._M_t._M_head_impl') and S.zero(x) for k, x in S.mem.items()):
                    return ('bad', 'the file is reopened before the storage was flushed')
                S.user = (d, fl, ex, I.id, rp)
            return None
        if args:
            if name == '_ZN3xtr6detail18command_dispatcher10send_errorEiSt17basic_string_viewIcSt11char_traitsIcEE':
                k = 4
            else:
                k = sent_frame(self.vn, S, I, name, args)
            if k is not None:
                if rp is not None:
                    return ('bad', 'more than one reply is sent')
                if r is None:
                    return ('bad', 'a reply is sent before the file was reopened')
                e = atom(('v', r))
                if k == 3 and not S.zero(e):
                    return ('bad', 'success is reported although reopening may have failed')
                if k == 4 and not S.nonzero(e):
                    return ('bad', 'an error is reported although reopening may have succeeded')
                if k not in (3, 4):
                    return ('bad', 'the reply is neither success nor error')
                S.user = (d, fl, ex, r, k)
        return None

    def exit(self, S, I):
        if I.op == 'ret' and S.user[4] is None:
            return ('bad', 'no reply is sent')


class MakeStorage(Rule):
    """make_fd_storage(int, std::string)"""
    def __init__(self, fd, path):
        self.fd, self.path = fd, path
        self.n = 0

    def call(self, S, I, name, args):
        n = callname(I)
        if args and re.match(r'_ZN3xtr(16posix|19io_uring)_fd_storageC[12]E', n):
            self.n += 1
            if not S.eq(args[1], atom(self.fd)):
                return ('bad', 'the storage is created for another file descriptor')
            l = S.read(args[2].plus(8), 8)
            if l is None or l != atom(('m', (8, frozenset([(self.path, 1)])), 8)):
                return ('bad', 'the storage is not given the reopen path')
        return None


class BaseCtor(Rule):
    def __init__(self, off, ln):
        self.off, self.ln = off, ln
        self.dup = 0

    def call(self, S, I, name, args):
        if name in ('dup', 'dup2', 'dup3', 'fcntl', 'fcntl64'):
            self.dup += 1
            if not S.eq(args[0], atom(('arg', 1))):
                return ('bad', 'the file descriptor duplicated is not the one passed')
        return None

    def store(self, S, I, a, v, n):
        if ends(fname(I) or '', 'fd_.fd_', 'fd_') and n == 4:
            s = single_sym(v)
            J = self.vn.fn.inst.get(s[1]) if s and s[0] == 'v' else None
            if S.const(v) != -1 and not (J is not None and J.is_call and J.callee in ('dup', 'fcntl', 'fcntl64')):
                return ('bad', 'the storage keeps a file descriptor that it did not duplicate and does not own')
        return None

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        l = S.read(atom(('arg', 0)).plus(self.off + 8), 8)
        if l is None or l != self.ln:
            return ('bad', 'the reopen path is not kept')


def c14(ctx, rep):
    rep.rule('order', 'reopen command: everything buffered is submitted and flushed before the storage is asked to reopen; the reply is success exactly if it returned zero')
    rep.rule('open', 'reopen(): opens the reopen path for appending, retries only interrupted calls, replaces the descriptor only after success, returns errno otherwise')
    rep.rule('replace', 'replace_fd: the old descriptor is closed exactly once (through the ring, behind writes in flight, for io_uring) and the new one installed')
    rep.rule('path', 'the path given by the user reaches the storage that is used, also when io_uring is not available; the storage duplicates the descriptor')
    mod = ctx.lib()
    for fn in mod.by_dem(r'^xtr::detail::consumer::reopen_handler\('):
        R = ReopenCmd()
        go(rep, 'order', fn, R)
        rep.n('reopen_commands', R.n)
    rep.need('reopen_commands', 1)
    seen = set()
    for vt in storages(mod):
        f = method(mod, vt, 'reopen')
        if f.name not in seen:
            seen.add(f.name)
            R = Reopen()
            go(rep, 'open', f, R)
            rep.n('open_calls', R.opens)
            rep.ok('reopen_functions', f.short())
        for nm in sorted(mod.fns):
            pass
    for fn in mod.by_dem(r'^xtr::.*fd_storage(_base)?::replace_fd\('):
        go(rep, 'replace', fn, RingReplace(mod) if 'uring' in fn.dem else ReplaceFd())
        rep.ok('replace_functions', fn.short())
    rep.need('open_calls', 1)
    rep.need('replace_functions', 2)
    for fn in mod.by_dem(r'^xtr::make_fd_storage\(int'):
        R = MakeStorage(('arg', 1), ('arg', 2))
        go(rep, 'path', fn, R)
        rep.n('storages_made', R.n)
    rep.need('storages_made', 2)
    off = mod.member(FSB, 'reopen_path_')
    if not off:
        raise Broken('fd_storage_base::reopen_path_ not found')
    for fn in mod.by_dem(r'^xtr::detail::fd_storage_base::fd_storage_base\(int'):
        R = BaseCtor(off[0], atom(('m', (8, frozenset([(('arg', 2), 1)])), 8)))
        go(rep, 'path', fn, R)
        rep.n('duplicated_descriptors', R.dup)
    rep.need('duplicated_descriptors', 1)
