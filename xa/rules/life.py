"""Lifetime rules: waiting for the background thread, close, shutdown."""
import re
from collections import namedtuple
from .vu import *
from ..sim import trace
from ..producer import irole, capacity, ACQ, REL

TRAMP = re.compile(r'^_ZN3xtr6detail\d+trampoline')


# ------------------------------------------------------ records with a waiter
PU = namedtuple('PU', 'b cap pub held flags ack z x')


class Post(Rule):
    """records built and published by a function, and what it waited for.

    user.b      record under construction: (trampoline, store, address key)
    user.cap    {(record, offset, alloca)} stack addresses stored in it
    user.pub    records made visible
    user.held   mutexes (allocas) locked
    user.flags  (record, term) pairs of flag values read with the lock held
    user.ack    records whose flag was seen set
    user.z      allocas whose first word was last stored as zero
    user.x      for subclasses
    """
    init = PU(None, frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), None)

    def __init__(self, flag_off=None):
        self.flag_off = flag_off          # trampoline -> (flag offset, mutex offset | None)
        self.seen = set()                 # (trampoline, offset) stack captures

    def store(self, S, I, a, v, n):
        u = S.user
        sa = single_sym(a)
        if sa and sa[0] == 'al' and a.c == 0:
            u = S.user = u._replace(z=u.z | {sa[1]} if S.zero(v) else u.z - {sa[1]})
        s = single_sym(v)
        if s and v.c == 0 and s[0] == 'g' and TRAMP.match(str(s[1])) and not any(x[0] == 'al' for x in a.t):
            S.user = u._replace(b=(s[1], I.id, a.key()))
            return None
        if irole(I) == 'nwritten' and S.const(v) is None and u.b:
            S.user = u._replace(b=None, pub=u.pub | {u.b}, x=self.posting(S, u.b, u.x))
            return self.published(S, I, u.b)
        if s and v.c == 0 and s[0] == 'al' and u.b:
            d = (a - Lin(u.b[2][0], dict(u.b[2][1]))).const()
            if d is not None and 0 < d < 4096:
                self.seen.add((u.b[0], d))
                S.user = u._replace(cap=u.cap | {(u.b, d, s[1])})
        return self.stored(S, I, a, v, n)

    def posting(self, S, rec, x):
        return x

    def published(self, S, I, rec):
        fo = self.flag_off and self.flag_off.get(rec[0])
        if fo:
            for r, d, x in S.user.cap:
                if r == rec and d == fo[0]:
                    if x not in S.user.z:
                        return ('bad', 'the flag the background thread sets is not cleared before the record is posted')

    def stored(self, S, I, a, v, n):
        pass

    def shared(self, S, I, a, n):
        s = single_sym(a)
        if s is None or s[0] != 'al':
            return False
        return any(x == s[1] and r in S.user.pub for r, d, x in S.user.cap)

    def load(self, S, I, a, n):
        s = single_sym(a)
        if s is None or s[0] != 'al':
            return None
        u = S.user
        for r, d, x in u.cap:
            if x == s[1] and r in u.pub and self.flag_off and r[0] in self.flag_off and self.flag_off[r[0]][0] == d:
                mo = self.flag_off[r[0]][1]
                mx = [y for r2, d2, y in u.cap if r2 == r and d2 == mo]
                good = (mx and mx[0] in u.held) or I.d.get('ord') in ACQ
                t = self.vn.fresh(S, I)
                fl = frozenset(f for f in u.flags if f[0] != r)
                if good:
                    fl |= {(r, t.key())}
                S.user = u._replace(flags=fl)
                return t
        return None

    def call(self, S, I, name, args):
        if args is None:
            return None
        u = S.user
        if LOCK.match(name) or UNLOCK.match(name):
            s = single_sym(args[0])
            if s and s[0] == 'al':
                S.user = u._replace(held=u.held | {s[1]} if LOCK.match(name) else u.held - {s[1]})
        return self.called(S, I, name, args)

    def called(self, S, I, name, args):
        pass

    def branch(self, S, B, T):
        u = S.user
        for r, k in u.flags:
            if r not in u.ack and S.nonzero(Lin(k[0], dict(k[1]))):
                S.user = u._replace(ack=u.ack | {r})
                return self.acked(S, r)

    def acked(self, S, rec):
        pass

    def unwind(self, S, I):
        return 'stop'

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        u = S.user
        for r, d, x in u.cap:
            if r in u.pub and r not in u.ack:
                return ('bad', 'returns while a record it posted still refers to its local variables, without having seen the acknowledgement of the background thread')
        return self.done(S, I)

    def done(self, S, I):
        pass


class Ack(Rule):
    """the background thread's side: acknowledgement through captured addresses.
    user: (locked, flag, notified, released, extra)"""
    init = ((), None, False, False, None)

    def __init__(self, offs, last=False):
        self.offs = offs        # offsets of captured stack addresses
        self.flag = set()
        self.mutex = set()
        self.last = last        # the sink may vanish: the record itself must not be touched either

    def cap_of(self, l):
        s = single_sym(l)
        if s and s[0] == 'm' and l.c == 0:
            k = s[1]
            if len(k[1]) == 1 and list(k[1])[0] == (('arg', 1), 1) and k[0] in self.offs:
                return k[0]
        return None

    def base_cap(self, l):
        for a, n in l.t.items():
            if n == 1 and self.cap_of(atom(a)) is not None:
                return self.cap_of(atom(a))
        return None

    def store(self, S, I, a, v, n):
        lk, fl, no, re_, x = S.user
        o = self.base_cap(a)
        if o is not None:
            if re_:
                return ('bad', 'accesses memory of the waiting thread after the waiting thread was released')
            if self.cap_of(a) is not None and (S.const(v) or 0) != 0:
                if not lk and I.d.get('ord') not in REL:
                    return ('bad', 'sets the flag the waiting thread looks at without holding the mutex')
                self.flag.add(o)
                if lk:
                    self.mutex.add(lk[0])
                r = self.signalled(S, I)
                S.user = (lk, o, no, re_ or not lk, S.user[4])
                return r
        return self.stored(S, I, a, v, n)

    def stored(self, S, I, a, v, n):
        pass

    def signalled(self, S, I):
        """about to acknowledge"""

    def load(self, S, I, a, n):
        lk, fl, no, re_, x = S.user
        if re_:
            if self.base_cap(a) is not None:
                return ('bad', 'accesses memory of the waiting thread after the waiting thread was released')
            if self.last and ('arg', 1) in a.t:
                return ('bad', 'accesses the record after the closing thread was released (the sink may no longer exist)')

    def call(self, S, I, name, args):
        if args is None:
            return None
        lk, fl, no, re_, x = S.user
        for a in args:
            if re_ and self.base_cap(a) is not None:
                return ('bad', 'accesses memory of the waiting thread after the waiting thread was released')
        o = self.cap_of(args[0]) if args else None
        if o is not None:
            if LOCK.match(name):
                S.user = (lk + (o,), fl, no, re_, x)
            elif UNLOCK.match(name):
                lk = tuple(y for y in lk if y != o)
                S.user = (lk, fl, no, re_ or fl is not None, x)
            elif NOTIFY.match(name):
                if fl is None and lk == ():
                    pass
                S.user = (lk, fl, True, re_, x)
        return self.called(S, I, name, args)

    def called(self, S, I, name, args):
        pass

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        lk, fl, no, re_, x = S.user
        if fl is None:
            return ('bad', 'returns without having acknowledged the waiting thread')
        if not no:
            return ('bad', 'returns without having woken the waiting thread')
        if lk:
            return ('bad', 'returns with the mutex of the waiting thread locked')


def posts(mod, rep=None):
    """(functions that post records which refer to their stack, {trampoline: offsets})"""
    c = getattr(mod, '_posts', None)
    if c:
        return c
    fns, offs = [], {}
    for n in sorted(mod.fns):
        fn = mod.fn(n)
        if not any(I.op == 'store' and isinstance(I.a[0], dict) and TRAMP.match(str(I.a[0].get('n', ''))) for I in fn.all()):
            continue
        P = Post()
        vn = VN(fn, P)
        P.vn = vn
        vn.run()
        if P.seen:
            fns.append(fn)
            for t, o in P.seen:
                offs.setdefault(t, set()).add(o)
    mod._posts = (fns, offs)
    return mod._posts


def buf_args(mod):
    """the buffer passed to a record function is the consumer's"""
    m = mod.member('_ZTSN3xtr6detail8consumerE', 'buf')
    return {0: atom(('arg', 2)).plus(m[0] if m else 0)}


class Durable(Ack):
    """extra: phase in 'dirty' | 'clean' | 'flushed' | 'synced' | 'excused'"""
    init = ((), None, False, False, 'dirty')

    def field(self, S, n):
        for (k, sz), v in S.mem.items():
            if isinstance(k[0], int) and ends(self.vn.names.get((k, sz)) or '', n):
                return v
        return None

    def phase(self, S, p):
        S.user = S.user[:4] + (p,)

    def branch(self, S, B, T):
        # an empty buffer has nothing to submit
        if S.user[4] == 'dirty' and self.empty(S):
            self.phase(S, 'clean')
        for (k, sz), v in S.mem.items():
            if ends(self.vn.names.get((k, sz)) or '', 'storage_._M_t._M_t._M_head_impl') and v.const() is None and S.zero(v):
                self.phase(S, 'excused')

    def empty(self, S):
        p, b = self.field(S, 'pos_'), self.field(S, 'begin_')
        return p is not None and b is not None and S.zero(p - b)

    def unwind(self, S, I):
        v = vcall(I)
        if v and v[0] == 'storage_interface':
            self.phase(S, 'excused')
            return None
        return None

    def called(self, S, I, name, args):
        v = vcall(I)
        if not v or v[0] != 'storage_interface':
            return None
        ph = S.user[4]
        if v[1] == 'submit_buffer':
            p, b = self.field(S, 'pos_'), self.field(S, 'begin_')
            if ph == 'dirty' and len(args) > 2 and p is not None and b is not None and S.eq(args[1], b) and S.eq(args[2], p - b):
                self.phase(S, 'clean')
        elif v[1] == 'flush':
            if ph == 'clean':
                self.phase(S, 'flushed')
        elif v[1] == 'sync':
            if ph == 'flushed':
                self.phase(S, 'synced')
        return None

    def signalled(self, S, I):
        ph = S.user[4]
        if ph not in ('synced', 'excused'):
            return ('bad', 'acknowledges sync() before the ' + {
                'dirty': 'buffered lines were submitted to the storage',
                'clean': 'submitted lines were flushed by the storage',
                'flushed': 'storage was synced'}[ph])


def handshake(rep, mod, rid, want=None, cls=Ack, skip=()):
    """acknowledgement protocol of every record that refers to a waiting stack"""
    fns, offs = posts(mod)
    flag = {}
    for t in sorted(offs):
        if t not in mod.fns:
            raise Broken('record function %s not found' % t)
        fn = mod.fn(t)
        A = Ack(offs[t])
        go(rep, rid, fn, A, argvals=buf_args(mod))
        rep.ok('record_functions_with_waiter', mod.dem(t)[:120])
        if len(A.flag) == 1:
            mx = list(A.mutex)
            flag[t] = (list(A.flag)[0], mx[0] if len(mx) == 1 else None)
        elif not A.flag:
            if not rep.viol:
                rep.bad(rid, fn.short(), 'a record that refers to local variables of the posting thread is executed without an acknowledgement')
    for fn in fns:
        go(rep, rid, fn, Post(flag))
        rep.ok('waiting_functions', fn.short())
    return fns, offs, flag


def posted_by(mod, fn):
    """trampolines a function stores"""
    return {I.a[0]['n'] for I in fn.all() if I.op == 'store' and isinstance(I.a[0], dict) and TRAMP.match(str(I.a[0].get('n', '')))}


class MustSync(Rule):
    """storage sync: user = synced"""
    init = False

    def __init__(self, uring):
        self.uring = uring

    def call(self, S, I, name, args):
        if name in ('fsync', 'fdatasync', 'sync_file_range', 'syncfs') and args:
            if not ends(term_name(self.vn, args[0]), 'fd_.fd_', 'fd_'):
                return ('bad', '%s is not called on the file descriptor of the storage' % name)
            if self.uring and not S.user:
                z = False
                for (k, sz), v in S.mem.items():
                    if ends(self.vn.names.get((k, sz)) or '', 'pending_cqe_count_') and (S.zero(v) or S.rng(v)[1] <= 0):
                        z = True
                if not z:
                    return ('bad', '%s is called while writes may still be in flight' % name)
            if name != 'sync_file_range':
                S.user = True
        return None

    def exit(self, S, I):
        if I.op == 'ret' and not S.user:
            return ('bad', 'sync of the storage returns without syncing the file')


class MustSubmit(Rule):
    init = False

    def call(self, S, I, name, args):
        f = callee_field(self.vn, I, S)
        if ends(f, 'io_uring_submit_func_') or name in ('io_uring_submit', 'io_uring_submit_and_wait'):
            S.user = True
        return None

    def exit(self, S, I):
        if I.op == 'ret' and not S.user:
            return ('bad', 'flush of the storage returns with prepared writes that were not submitted')


def c08(ctx, rep):
    rep.rule('handshake', 'a function whose stack is referred to by a posted record returns only after reading, under the mutex, the flag that the background thread sets under the mutex, after which the background thread no longer touches that stack')
    rep.rule('durable', 'before the acknowledgement of the record posted by sync(), on every path: buffered bytes [begin, pos) submitted, then storage flushed, then storage synced')
    rep.rule('storage', 'sync of every storage class reaches fsync of its file descriptor on every path, for io_uring only with no write in flight; flush of io_uring storage submits prepared entries on every path')
    mod = ctx.lib()
    fns, offs, flag = handshake(rep, mod, 'handshake')
    sy = mod.by_dem(r'^xtr::sink::sync\(\)$')
    if not sy:
        raise Broken('xtr::sink::sync not found')
    ts = posted_by(mod, sy[0])
    if not ts:
        rep.bad('durable', sy[0].short(), 'sync() does not post anything to the background thread')
    good = set()
    for t in ts:
        n0 = len(rep.viol)
        if t not in offs:
            continue
        D = Durable(offs[t])
        go(rep, 'durable', mod.fn(t), D, argvals=buf_args(mod))
        rep.ok('sync_records', mod.dem(t)[:100])
        good.add(t)
    if ts and not good:
        rep.bad('durable', sy[0].short(), 'sync() does not wait for the record it posts')

    class Must(Post):
        def done(self, S, I):
            if not any(r[0] in good for r in S.user.ack):
                return ('bad', 'sync() returns without having waited for the background thread')
    go(rep, 'durable', sy[0], Must(flag))
    for vt in storages(mod):
        u = 'uring' in vt
        f = method(mod, vt, 'sync')
        if f is None:
            raise Broken('no sync in ' + vt)
        go(rep, 'storage', f, MustSync(u))
        rep.ok('storage_sync', f.short())
        if u:
            f = method(mod, vt, 'flush')
            go(rep, 'storage', f, MustSubmit())
            rep.ok('storage_flush', f.short())
    rep.need('record_functions_with_waiter', 2)
    rep.need('waiting_functions', 3)
    rep.need('storage_sync', 2 if not ctx.config.get('no_uring') else 1)


# ----------------------------------------------------------------------- close
class CloseAck(Ack):
    """the record posted by close(): extra = destroy flag set"""
    init = ((), None, False, False, False)

    def stored(self, S, I, a, v, n):
        if ends(fname(I), 'destroy'):
            S.user = S.user[:4] + ((S.const(v) or 0) != 0,)

    def signalled(self, S, I):
        if not S.user[4]:
            return ('bad', 'acknowledges close() before the background thread was told to forget the sink')


QUEUE = ('nwritten', 'nread', 'wrnwritten', 'wrnread', 'dropped')


class Closer(Post):
    """x: (close record acknowledged, values of the queue positions written
    since, open_ written)"""

    def __init__(self, flag, closes, cap, dtor):
        Post.__init__(self, flag)
        self.closes, self.qcap, self.dtor = closes, cap, dtor
    init = Post.init._replace(x=(False, (), False))

    def acked(self, S, rec):
        if rec[0] in self.closes:
            S.user = S.user._replace(x=(True,) + S.user.x[1:])

    def branch(self, S, B, T):
        if not S.user.x[0] and self.closed(S):
            S.user = S.user._replace(x=('closed',) + S.user.x[1:])
        return Post.branch(self, S, B, T)

    def own(self, a):
        return self.vn.base_of(a.key()) == ('arg', 0)

    def stored(self, S, I, a, v, n):
        r = irole(I)
        ack, vals, op = S.user.x
        if not self.own(a):
            return None
        if ends(fname(I), 'sink::open_') and (S.const(v) == 0):
            if not ack:
                return ('bad', 'marks the sink as closed while the background thread still uses it')
            S.user = S.user._replace(x=(ack, vals, True))
        if r in QUEUE and (r in ('nread',) or S.const(v) is not None):
            if not ack:
                return ('bad', 'resets the queue of a sink while the background thread still uses it')
            d = dict(vals)
            d[r] = v.key()
            S.user = S.user._replace(x=(ack, tuple(sorted(d.items())), op))
        return None

    def closed(self, S):
        """open_ is known to be false"""
        for (k, sz), v in S.mem.items():
            if ends(self.vn.names.get((k, sz)) or '', 'sink::open_') and self.vn.base_of(k) == ('arg', 0) and S.zero(v):
                return True
        return False

    def opened(self, S):
        for (k, sz), v in S.mem.items():
            if ends(self.vn.names.get((k, sz)) or '', 'sink::open_') and self.vn.base_of(k) == ('arg', 0):
                return S.nonzero(v)
        return None

    def called(self, S, I, name, args):
        if name in ('munmap',) or 'memory_mapping' in name and re.search(r'D[012]Ev', name):
            ack, vals, op = S.user.x
            if not ack:
                return ('bad', 'the memory of the queue is unmapped while the background thread still uses it')

    def done(self, S, I):
        ack, vals, op = S.user.x
        if not ack:
            return ('bad', 'returns without having waited for the background thread to forget the sink')
        if self.dtor or ack == 'closed':
            return None
        return self.reset(S, I)

    def reset(self, S, I):
        ack, vals, op = S.user.x
        if not op:
            return ('bad', 'a closed sink is still marked as open')
        d = {k: Lin(c[0], dict(c[1])) for k, c in vals}
        miss = [q for q in QUEUE if q not in d]
        if miss:
            return ('bad', 'a closed sink can be registered again but %s of its queue is not reset' % miss[0])
        if (d['nread'] - d['nwritten']).const() != self.qcap or d['wrnwritten'] != d['nwritten'] or d['wrnread'] != d['nread']:
            return ('bad', 'the queue of a closed sink is reset to an inconsistent state: %s' % ', '.join('%s=%r' % x for x in sorted(d.items())))
        if d['dropped'].const() != 0:
            return ('bad', 'the dropped message count of a closed sink is not reset')


class Reader(Rule):
    """user: (state, element offset of the sink whose records ran, replaced)"""
    init = ('idle', None, False)

    def __init__(self, disp):
        self.disp = disp

    def header(self, S, B):
        # a loop over sinks: nothing is carried from one sink to the next
        c = self.__dict__.setdefault('_outer', {})
        if B not in c:
            c[B] = any(irole(self.vn.fn.inst[i]) == 'nwritten' for i in self.vn.loopdefs[B] if i in self.vn.fn.inst)
        if c[B]:
            S.user = (S.user[0] if S.user[0] in ('ran', 'dead') else 'idle', None, False)

    def slot(self, S, n):
        for (k, sz), v in S.mem.items():
            if ends(self.vn.names.get((k, sz)) or '', n):
                return v
        return None

    def load(self, S, I, a, n):
        n_ = fname(I)
        st, idx, rp = S.user
        if ends(n_, 'sink_handle::p') and not any(x[0] == 'al' for x in a.t):
            r = S.read(a, n)
            if r is None:
                r = self.vn.initial(S, I, a, n)
                S.mem[(a.key(), n)] = r
                self.vn.names[(a.key(), n)] = n_
            return r
        role = irole(I)
        if n_ and n_.startswith('sink::') or role:
            b = self.touch(S, I)
            if b:
                return b
        if role == 'nwritten':
            if st in ('ran', 'dead'):
                return ('bad', 'goes on to another sink without having removed a closed sink')
            off = fieldoff(I)
            ptr = a.plus(-off) if off is not None else a
            start = self.slot(S, 'sinks_._M_impl._M_start')
            d = None
            for k in self.where(S, ptr):
                if start is not None:
                    d = (Lin(k[0], dict(k[1])) - start).key()
            S.user = ('span', d, False)
        return None

    def is_last(self, S, start, fin, d):
        if S.eq(start + d + Lin(ELEM), fin):
            return True
        if d.c % ELEM or any(k % ELEM for k in d.t.values()):
            return False
        i = Lin(d.c // ELEM + 1, {x: k // ELEM for x, k in d.t.items()})
        return any(S.eq(atom((op, (fin - start).key(), Lin(ELEM).key())), i) for op in ('sdiv', 'udiv'))

    def where(self, S, ptr):
        """addresses of list elements known to hold this sink pointer"""
        return sorted((k for (k, sz), v in S.mem.items() if sz == 8 and v == ptr and ends(self.vn.names.get((k, sz)), 'sink_handle::p')
                       and not any(x[0] == 'al' for x, _ in k[1])), key=str)

    def touch(self, S, I):
        st = S.user[0]
        if st == 'ran':
            return ('bad', 'accesses a sink after running its records without knowing that it was not closed (it may no longer exist)')
        if st == 'dead':
            return ('bad', 'accesses a sink that was closed (it may no longer exist)')

    def store(self, S, I, a, v, n):
        n_ = fname(I)
        if n_ and n_.startswith('sink::') or irole(I):
            b = self.touch(S, I)
            if b:
                return b
        if ends(n_, 'sink_handle::p') and S.user[0] == 'dead' and S.user[1] is not None:
            start, fin = self.slot(S, 'sinks_._M_impl._M_start'), self.slot(S, 'sinks_._M_impl._M_finish')
            d = Lin(S.user[1][0], dict(S.user[1][1]))
            if start is not None and S.eq(a, start + d):
                S.user = S.user[:2] + (fin is not None and any((Lin(k[0], dict(k[1])) - fin).const() == -ELEM for k in self.where(S, v)),)

    def branch(self, S, B, T):
        if S.user[0] == 'ran':
            v = self.slot(S, 'destroy')
            if v is not None:
                if S.zero(v):
                    S.user = ('alive',) + S.user[1:]
                elif S.nonzero(v):
                    S.user = ('dead',) + S.user[1:]

    def clobber(self, S, I, name):
        return 'all' if I.id in self.disp else None

    def call(self, S, I, name, args):
        st, idx, rp = S.user
        if I.id in self.disp:
            if st == 'span':
                v = self.slot(S, 'consumer::destroy')
                if v is None or not S.zero(v):
                    return ('bad', 'runs records with the flag that reports a closed sink still set from before')
                if idx is None:
                    return ('bad', 'runs records of a sink that is not taken from the list of sinks')
            elif st != 'ran':
                return ('bad', 'runs a record outside a span of visible records')
            S.user = ('ran', idx, False)
            return None
        m = re.search(r'vector.*sink_handle.*?(8pop_back|5erase|8_M_erase|6resize|5clear)', name)
        if m:
            what = m.group(1).lstrip('0123456789')
            if st == 'ran':
                return ('bad', 'removes a sink without knowing that it was closed')
            if st != 'dead':
                return ('bad', 'removes a sink that was not closed')
            start, fin = self.slot(S, 'sinks_._M_impl._M_start'), self.slot(S, 'sinks_._M_impl._M_finish')
            d = Lin(idx[0], dict(idx[1])) if idx else None
            if what == 'pop_back':
                last = start is not None and fin is not None and d is not None and self.is_last(S, start, fin, d)
                if not rp and not last:
                    return ('bad', 'the element removed from the list of sinks is not the closed sink')
            elif what in ('erase', '_M_erase'):
                if d is None or start is None or not any(S.eq(x, start + d) for x in args):
                    return ('bad', 'the element removed from the list of sinks is not the closed sink')
            else:
                return ('bad', 'removes sinks that were not closed')
            S.user = ('removed', None, False)
        return None

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        if S.user[0] in ('ran', 'dead'):
            return ('bad', 'returns without having removed a closed sink')
        return self.end(S, I)

    def end(self, S, I):
        pass


ELEM = 48


def fieldoff(I):
    """byte offset of the accessed queue field in the sink"""
    m = I.fn.mod.member('_ZTSN3xtr4sinkE', 'buf_')
    a = addr(I.fn, mem_ptr(I))
    return a.off if not a.var else None


def c09(ctx, rep):
    from .queue import run_fn, dispatches
    rep.rule('close', 'close() and ~sink() of an open sink return (and reset or unmap the queue) only after the acknowledgement of a record that told the background thread to forget the sink; the reset leaves nread - nwritten == capacity and the private copies equal')
    rep.rule('forget', 'the record posted by close() sets the destroy flag before the acknowledgement and touches neither the sink nor the waiting stack afterwards')
    rep.rule('reader', 'after running records the reader touches no sink before it knows that the destroy flag is clear; if it is set, exactly the element of that sink is removed before anything else')
    mod = ctx.lib()
    fns, offs, flag = handshake(rep, mod, 'close')
    cap = capacity(mod)
    cl = mod.by_dem(r'^xtr::sink::close\(\)$')
    if not cl:
        raise Broken('xtr::sink::close not found')
    closes = set()
    for t in posted_by(mod, cl[0]):
        if t in offs:
            closes.add(t)
            go(rep, 'forget', mod.fn(t), CloseAck(offs[t], last=True), argvals=buf_args(mod))
            rep.ok('close_records', mod.dem(t)[:100])
    if not closes:
        rep.bad('close', cl[0].short(), 'close() does not wait for the background thread')
    go(rep, 'close', cl[0], Closer(flag, closes, cap, False))
    rep.ok('closing_functions', cl[0].short())
    for fn in mod.by_dem(r'^xtr::sink::~sink\(\)$'):
        go(rep, 'close', fn, Closer(flag, closes, cap, True))
        rep.ok('closing_functions', fn.short())
    run = run_fn(mod)
    global ELEM
    sz = mod.classes.get('_ZTSN3xtr6detail8consumer11sink_handleE')
    if sz:
        ELEM = max(m[1] + m[3] for m in sz['m'])
    R = Reader({I.id for I in dispatches(run)})
    go(rep, 'reader', run, R, cap=60000)
    rep.ok('reader_loops', run.short())
    rep.n('dispatch_sites', len(R.disp))
    rep.need('closing_functions', 2)
    rep.need('dispatch_sites', 1)


# -------------------------------------------------------------------- shutdown
class Drained(Reader):
    def end(self, S, I):
        s, f = self.slot(S, 'sinks_._M_impl._M_start'), self.slot(S, 'sinks_._M_impl._M_finish')
        if s is None or f is None or not S.eq(s, f):
            return ('bad', 'the background thread stops while sinks are still registered: lines in their queues are lost')


class Idle(Rule):
    """one visit of the background thread to a sink.  user: (what, clean):
    what 'none' | 'dirty' | 'flushed'; clean: buffer known to be submitted"""
    init = ('none', False)

    def __init__(self, disp, H, cand):
        self.disp, self.H, self.cand = disp, H, cand
        self.fails = {c: [] for c in cand}
        self.laps = {c: 0 for c in cand}
        self.first = True
        self.flushes = 0

    def slot(self, S, n):
        for (k, sz), v in S.mem.items():
            if ends(self.vn.names.get((k, sz)) or '', n):
                return v
        return None

    def clobber(self, S, I, name):
        return 'all' if I.id in self.disp else None

    def call(self, S, I, name, args):
        if I.id in self.disp:
            S.user = ('dirty', False)
            return None
        if args is None:
            return None
        v = vcall(I)
        if v and v[0] == 'storage_interface':
            if v[1] == 'submit_buffer':
                p, b = self.slot(S, 'buf.pos_'), self.slot(S, 'buf.begin_')
                if p is not None and b is not None and S.eq(args[1], b) and S.eq(args[2], p - b):
                    S.user = (S.user[0], True)
            elif v[1] == 'flush' and S.user[1]:
                self.flushes += 1
                S.user = ('flushed', True)
        return None

    def unwind(self, S, I):
        v = vcall(I)
        if v and v[0] == 'storage_interface':
            # a storage that failed was reported
            S.user = ('flushed', True)

    def branch(self, S, B, T):
        if not S.user[1]:
            p, b = self.slot(S, 'buf.pos_'), self.slot(S, 'buf.begin_')
            if p is not None and b is not None and S.zero(p - b):
                S.user = (S.user[0], True)
        st = self.slot(S, 'storage_._M_t._M_t._M_head_impl')
        if st is not None and st.const() is None and S.zero(st):
            S.user = ('flushed', True)

    def header(self, S, B):
        if B is not self.H:
            return None
        if self.first:
            self.first = False
            return None
        for c in self.cand:
            c0, c1 = atom(('v', c)), S.vals.get(c)
            self.laps[c] += 1
            t = self.judge(S, c0, c1)
            if t:
                self.fails[c].append((t, S.node))
        return 'stop'

    def judge(self, S, c0, c1):
        if S.user[0] == 'flushed':
            return None
        if S.user[0] == 'dirty':
            if c1 is None:
                return 'unknown'
            if S.nonzero(c1):
                return None
            s, f = self.slot(S, 'sinks_._M_impl._M_start'), self.slot(S, 'sinks_._M_impl._M_finish')
            a = single_sym(c1)
            if s is not None and f is not None:
                if a and a[0] in ('sdiv', 'udiv') and c1.c == 0 and S.eq(Lin(a[1][0], dict(a[1][1])), f - s):
                    return None
                if a and a[0] == 'mul' or S.zero(f - s):
                    return None
            return 'records were run but nothing makes the thread flush them once all sinks are empty'
        if S.zero(c0):
            return None
        if c1 is not None and S.eq(c1, c0.plus(-1)) and S.nonzero(c1):
            return None
        return 'a sink was empty and unflushed lines may remain, but neither a flush happens nor does the count of remaining visits decrease'


class FlushFirst(Durable):
    """~buffer: extra phases as in Durable; the storage must be flushed before it
    goes away"""
    def called(self, S, I, name, args):
        v = vcall(I)
        if v and v[0] == 'storage_interface' and (v[1] or '').startswith('~'):
            return self.gone(S)
        return Durable.called(self, S, I, name, args)

    def gone(self, S):
        if S.user[4] not in ('flushed', 'synced', 'excused'):
            return ('bad', 'the storage is destroyed before the buffered lines were submitted and flushed')

    def exit(self, S, I):
        if I.op == 'ret':
            return self.gone(S)


class Joins(Rule):
    """~logger: user = (control sink closed, joined)"""
    init = (False, False)

    def __init__(self, off):
        self.off = off

    def call(self, S, I, name, args):
        if not args:
            return None
        c, j = S.user
        if re.match(r'_ZN3xtr4sinkD[12]Ev|_ZN3xtr4sink5closeEv', name or str((I.d.get('callee') or {}).get('n') if isinstance(I.d.get('callee'), dict) else '')):
            if args[0] == atom(('arg', 0)).plus(self.off):
                S.user = (True, j)
        elif name == '_ZNSt6thread4joinEv':
            if not c:
                return ('bad', 'the destructor of the logger waits for the background thread before closing its own sink, so it never returns')
            S.user = (c, True)
        elif name == '_ZNSt6thread6detachEv':
            return ('bad', 'the destructor of the logger does not wait for the background thread')
        return None

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        c, j = S.user
        if not c:
            return ('bad', 'the destructor of the logger does not close the sink of the logger')
        if not j:
            for (k, sz), v in S.mem.items():
                if ends(self.vn.names.get((k, sz)) or '', '_M_id._M_thread') and S.zero(v):
                    return None
            return ('bad', 'the destructor of the logger does not wait for the background thread')


class Destroys(Rule):
    """destructor of the thread function: the consumer goes with it"""
    init = False

    def call(self, S, I, name, args):
        v = vcall(I)
        cal = I.d.get('callee')
        nm = name or (cal.get('n', '') if isinstance(cal, dict) else '')
        if re.match(r'_ZN3xtr6detail(6buffer|8consumer)D[012]Ev', nm) or v == ('storage_interface', 'flush'):
            S.user = True

    def branch(self, S, B, T):
        # no consumer to destroy (it was never handed over)
        for k, (lo, hi, ex) in S.facts.items():
            if lo == hi == 0 and len(k) == 1:
                (a, c), = k
                n = sym_name(self.vn, a) if a[0] == 'm' else None
                if n and n.endswith('_M_head_impl') and not ends(n, 'cmds_._M_t._M_t._M_head_impl'):
                    S.user = True

    def exit(self, S, I):
        if I.op == 'ret' and not S.user:
            return ('bad', 'the background thread ends without the destructor of the buffer having flushed it')


class RingExit(Rule):
    """~io_uring_fd_storage: user = (submitted, drained, exited)"""
    init = (False, False, False)

    def call(self, S, I, name, args):
        s, d, x = S.user
        f = callee_field(self.vn, I, S)
        if ends(f, 'io_uring_submit_func_') or name in ('io_uring_submit', 'io_uring_submit_and_wait'):
            S.user = (True, d, x)
        elif name == 'io_uring_queue_exit':
            if not s:
                return ('bad', 'the ring is destroyed with prepared writes that were not submitted')
            z = any(ends(self.vn.names.get(k) or '', 'pending_cqe_count_') and S.zero(v) for k, v in S.mem.items())
            if not z:
                return ('bad', 'the ring is destroyed while writes may still be in flight')
            S.user = (s, True, True)
        elif name in ('_ZdaPv', '_ZdaPvm', '_ZdlPv', '_ZdlPvm') and args:
            if ends(term_name(self.vn, args[0]), 'buffer_storage_._M_t._M_t._M_head_impl') and not x:
                return ('bad', 'the buffers are freed while writes from them may still be in flight')
        elif name == 'close' and not x:
            return ('bad', 'the file is closed while writes to it may still be in flight')
        return None

    def unwind(self, S, I):
        return 'stop'

    def exit(self, S, I):
        if I.op == 'ret' and not S.user[2]:
            return ('bad', 'the ring is not destroyed')


def c10(ctx, rep):
    from .queue import run_fn, dispatches
    rep.rule('drain', 'the background thread returns only when the list of sinks is known to be empty')
    rep.rule('idle', 'for some loop counter c, inductively over one visit: running records leaves c positive (or equal to the number of sinks), a visit that runs none either flushes, has c == 0, or decreases c to a value other than 0')
    rep.rule('buffer', '~buffer submits [begin, pos) and flushes the storage on every path before the storage is destroyed; the thread function owns the consumer and destroys it')
    rep.rule('logger', '~logger closes the logger\'s own sink, then joins the background thread, on every path')
    rep.rule('ring', '~io_uring_fd_storage submits, drains every completion, exits the ring, and only then frees buffers or closes the file')
    mod = ctx.lib()
    run = run_fn(mod)
    disp = {I.id for I in dispatches(run)}
    go(rep, 'drain', run, Drained(disp), cap=60000)
    rep.ok('reader_loops', run.short())
    vn0 = VN(run, Rule())
    heads = [H for H in vn0.hdr if any(irole(run.inst[i]) == 'nwritten' for i in vn0.loopdefs[H] if i in run.inst)]
    if not heads:
        raise Broken('loop over sinks not found in ' + run.short())
    H = max(heads, key=lambda h: len(vn0.loopdefs[h]))
    cand = [I.id for I in vn0.phis[H] if I.ty in ('i64', 'i32')]
    R = Idle(disp, H, cand)
    vn = VN(run, R, cap=60000)
    R.vn = vn
    vn.run(start=H)
    rep.n('states', vn.nstates)
    if not R.flushes:
        rep.bad('idle', run.short(), 'the background thread never flushes the storage while it waits for records')
    elif not cand:
        raise Broken('no loop counter in ' + run.short())
    else:
        best = min(cand, key=lambda c: len(R.fails[c]))
        rep.ok('visits', '%d distinct visits, counter %%%d' % (R.laps[best], best), R.laps[best])
        for t, node in R.fails[best][:3]:
            p = [x for x in trace(node)]
            rep.bad('idle', run.short(), '%s; path %s' % (t, pathstr(p)))
    rep.need('visits', 4)
    bd = mod.by_dem(r'^xtr::detail::buffer::~buffer\(\)$')
    if not bd:
        raise Broken('xtr::detail::buffer::~buffer not found')
    for fn in bd:
        go(rep, 'buffer', fn, FlushFirst(set()))
        rep.ok('buffer_destructors', fn.short())
    mi = ctx.misc()
    st = [mi.fn(n) for n in sorted(mi.fns) if re.search(r'_State_impl.*D2Ev$', n)]
    if not st:
        raise Broken('state of the background thread not found')
    for fn in st:
        go(rep, 'buffer', fn, Destroys())
        rep.ok('thread_states', fn.short()[:80])
    m = mi.member('_ZTSN3xtr6loggerE', 'control_')
    if not m:
        raise Broken('logger::control_ not found')
    go(rep, 'logger', mi.fn('w_logger_dtor'), Joins(m[0]))
    rep.ok('logger_destructors', 'w_logger_dtor')
    for vt in storages(mod):
        if 'uring' not in vt:
            continue
        ds = mod.by_dem(r'^xtr::io_uring_fd_storage::~io_uring_fd_storage\(\)$')
        for fn in ds:
            if not fn.name.endswith('D2Ev') and len(ds) > 1:
                continue
            go(rep, 'ring', fn, RingExit())
            rep.ok('ring_destructors', fn.short())
