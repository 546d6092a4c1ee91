"""C20: what the reader loop does with dropped messages."""
import re
from collections import namedtuple
from ..ir import fieldname, mem_ptr
from ..vn import Rule, atom, cint
from ..lin import Lin
from ..build import Broken
from ..producer import irole, capacity
from .vu import go, fname, ends
from .io import callname
from .cmd import member
from . import life
from .lines import level_enum

SH = '_ZTSN3xtr6detail8consumer11sink_handleE'
D = namedtuple('D', 'ran d nr nw tok style line total at e')
D0 = D(False, None, None, None, None, None, False, False, None, None)


class Drops(life.Reader):
    init = D0

    def __init__(self, mod, disp):
        life.Reader.__init__(self, disp)
        self.name = member(mod, SH, 'name')[0]
        self.total = member(mod, SH, 'dropped_count')[0]
        self.warning = level_enum(mod)['warning']
        self.nlines = self.ntok = 0
        self.cap = capacity(mod)

    def outer(self, B):
        c = self.__dict__.setdefault('_outer', {})
        if B not in c:
            c[B] = B in self.vn.loopdefs and any(irole(self.vn.fn.inst[i]) == 'nwritten' for i in self.vn.loopdefs[B] if i in self.vn.fn.inst)
        return c[B]

    def header(self, S, B):
        if self.outer(B):
            S.user = D0

    def pins(self, S):
        u = S.user
        return {x for x in (u.nr, u.nw, u.tok, u.style) if x is not None}

    def elem(self, S, ptr):
        """(offset in the list, address) of the element of a sink"""
        start = self.slot(S, 'sinks_._M_impl._M_start')
        for k in self.where(S, ptr):
            return (Lin(k[0], dict(k[1])) - start).key() if start is not None else None, k
        return None, None

    def field(self, S, a, off):
        """a is the address of a member of the element whose drops were taken"""
        u = S.user
        if u.e is not None and S.eq(a, Lin(u.e[0], dict(u.e[1])).plus(off)):
            return True
        start = self.slot(S, 'sinks_._M_impl._M_start')
        return start is not None and u.d is not None and S.eq(a, start + Lin(u.d[0], dict(u.d[1])).plus(off))

    def load(self, S, I, a, n):
        n_ = fname(I)
        u = S.user
        if ends(n_, 'sink_handle::p') and not any(x[0] == 'al' for x in a.t):
            r = S.read(a, n)
            if r is None:
                r = self.vn.initial(S, I, a, n)
                S.mem[(a.key(), n)] = r
                self.vn.names[(a.key(), n)] = n_
            return r
        if u.at is not None and a.key() == u.at:
            return self.tokval(S)       # nothing is given a reference to change it
        role = irole(I)
        if role in ('nwritten', 'nread') and u.ran:
            S.user = u._replace(**{'nw' if role == 'nwritten' else 'nr': I.id})
        return None

    def tokval(self, S):
        return S.t(S.user.tok)

    def store(self, S, I, a, v, n):
        u = S.user
        role = irole(I)
        b = self.vn.base_of(a.key())
        if u.tok is not None and b is not None and b[0] == 'al' and n == 8:
            if S.eq(v, self.tokval(S)):
                S.user = u = u._replace(at=a.key())
            elif u.at == a.key():
                S.user = u = u._replace(at=None)
        if role == 'dropped':
            if I.op == 'cmpxchg':
                raise Broken('the drop count is taken in a way that is not understood')
            if I.op != 'atomicrmw':
                return ('bad', 'the count of dropped messages is overwritten: messages dropped at the same time are lost')
            if I.d.get('rmw') != 'xchg' or cint(I.a[1]) != 0:
                return ('bad', 'the count of dropped messages is not taken and reset in one step')
            m = I.fn.mod.member('_ZTSN3xtr4sinkE', 'buf_')
            off = life.fieldoff(I)
            self.ntok += 1
            if u.tok is not None:
                b = self.settle(S)
                if b:
                    return b
            d, e = self.elem(S, a.plus(-off) if off is not None else a)
            S.user = u._replace(tok=I.id, d=d, e=e, style=None, line=False, total=False, at=None)
            return None
        if u.tok is not None and ends(fname(I), 'sink_handle::dropped_count'):
            old = S.read(a, 8)
            if not self.field(S, a, self.total):
                return ('bad', 'dropped messages are added to the total of another sink')
            if old is None or not S.eq(v, old + self.tokval(S)):
                return ('bad', 'the total of dropped messages of a sink does not grow by the number of messages that were dropped')
            if u.total:
                return ('bad', 'dropped messages are added to the total twice')
            S.user = u._replace(total=True)

    def call(self, S, I, name, args):
        u = S.user
        if I.id in self.disp:
            S.user = D0._replace(ran=True)
            return None
        if args is None:
            return None
        nm = callname(I)
        if u.tok is not None and not nm and len(args) == 1 and args[0].const() is not None and ends(self.callee(I), 'lstyle'):
            if not u.line:
                if args[0].const() != self.warning:
                    return ('bad', 'dropped messages are not reported as a warning')
                S.user = u._replace(style=I.id)
            return None
        if u.tok is not None and not nm.startswith('llvm.'):
            tv = self.tokval(S)
            hit = any(S.eq(a, tv) for a in args) or any(a.key() == u.at for a in args)
            if hit:
                if u.line:
                    return ('bad', 'dropped messages are reported twice')
                if S.zero(tv) or not S.nonzero(tv) and S.rng(tv)[0] <= 0:
                    return ('bad', 'a line about dropped messages is written although none were dropped')
                if not any(self.field(S, a, self.name) for a in args):
                    if re.search(r'format_to|print', nm):
                        return ('bad', 'dropped messages are reported without the name of their sink')
                self.nlines += 1
                S.user = u._replace(line=True)
        return None

    def callee(self, I):
        L = I.fn.inst.get(I.d['callee']) if isinstance(I.d.get('callee'), int) else None
        return fieldname(I.fn, L.a[0], L) if L is not None and L.op == 'load' else None

    def settle(self, S):
        """the drop count that was taken has been dealt with"""
        u = S.user
        if u.tok is None or S.zero(self.tokval(S)):
            return None
        if not u.line:
            return ('bad', 'messages were dropped but no line reports them')
        if not u.total:
            return ('bad', 'messages were dropped but are not added to the total of their sink')
        return None

    def branch(self, S, B, T):
        u = S.user
        if u.ran:
            v = self.slot(S, 'destroy')
            if v is not None and S.nonzero(v):
                S.user = u = D0
        if self.outer(T):
            b = self.settle(S)
            if b:
                return b
            if u.ran and u.tok is None and not self.nonempty(S):
                return ('bad', 'records of a sink were run, its queue may be empty now, but nobody looks whether messages were dropped')

    def nonempty(self, S):
        u = S.user
        if u.nr is None or u.nw is None or u.nr not in S.vals or u.nw not in S.vals:
            return False
        lo, hi, ex = S.rng(S.t(u.nw) - S.t(u.nr))
        return -self.cap in ex or not lo <= -self.cap <= hi

    def clobber(self, S, I, name):
        if I.id in self.disp:
            return 'all'
        if re.match(r'_ZN3fmt.*format_to', name):
            # its arguments are constant, except for the line it writes to
            for k in [k for k in S.mem if 'buf.line' in (self.vn.names.get(k) or '')]:
                del S.mem[k]
            return 'none'

    def unwind(self, S, I):
        if S.user.tok is not None:
            S.user = S.user._replace(line=True)     # the line could not be written

    def exit(self, S, I):
        if I.op == 'ret':
            return self.settle(S)


def c20(ctx, rep):
    from .queue import run_fn, dispatches
    mod = ctx.lib()
    rep.rule('taken', 'the reader loop takes and resets the drop count of a sink in one atomic step whenever it has emptied its queue')
    rep.rule('reported', 'a drop count that was taken and is not zero is reported in one line with the name of that sink as a warning, and added once to the total of that sink')
    rep.rule('counted', 'a dropped message increases the drop count of its sink by an atomic increment of one')
    run = run_fn(mod)
    c = mod.classes.get(SH)
    if c:
        life.ELEM = max(m[1] + m[3] for m in c['m'])
    R = Drops(mod, {I.id for I in dispatches(run)})
    go(rep, 'reported', run, R, cap=60000)
    rep.ok('reader loops', run.short())
    rep.n('places where the count is taken', R.ntok)
    rep.n('places where drops are reported', R.nlines)
    sh = ctx.shapes()
    from .queue import shape_fns
    for n, tr, _, _ in shape_fns(sh):
        if not tr:
            continue
        fn = sh.fn(n)
        k = 0
        for I in fn.all():
            if irole(I) == 'dropped' and I.op in ('atomicrmw', 'store', 'cmpxchg'):
                k += 1
                c = cint(I.a[1]) if I.op == 'atomicrmw' else None
                if I.op != 'atomicrmw' or {'add': 1, 'sub': -1}.get(I.d.get('rmw')) != c:
                    rep.bad('counted', I.where(), 'a dropped message changes the drop count other than by an atomic increment of one in %s' % n)
        if not k:
            rep.bad('counted', fn.short(), 'a non-blocking statement never counts a dropped message')
        rep.n('non-blocking statements', 1)
    rep.need('reader loops', 1)
    rep.need('non-blocking statements', 5)
    if not rep.viol and not rep.stopped:
        rep.need('places where the count is taken', 1)
        rep.need('places where drops are reported', 1)
