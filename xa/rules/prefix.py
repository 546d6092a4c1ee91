"""C22: style, timestamp and name at the start of every line."""
import re
from collections import namedtuple
from ..ir import fieldname, addr, mem_ptr
from ..sim import width
from ..vn import Rule, atom, cint, single_sym
from ..lin import Lin
from ..build import Broken, NOINLINE
from ..producer import irole
from .vu import go, fname, ends
from .io import callname
from .cmd import member, alloca_size
from . import life
from .rec import FMT

SH = '_ZTSN3xtr6detail8consumer11sink_handleE'
CLOCK = re.compile(r'^_ZNKSt8functionIF\d*\w*timespec\w*vEEclEv$')
FORMAT = re.compile(r'_ZN3fmt.*(format_to_n|format_to|vformat|6format)')

# seen: this iteration has looked at its sink; age: how often the first sink was
# looked at since the clock was read; clock: the reading (call) not yet formatted;
# end: where the text ends and a zero has to go; d: offset of the sink in the list
P = namedtuple('P', 'seen age clock end d buf')
P0 = P(False, 9, None, None, None, None)


class Stamp(life.Reader):
    init = P0
    fold0 = True

    def __init__(self, mod, disp):
        life.Reader.__init__(self, disp)
        self.name = member(mod, SH, 'name')[0]
        self.nclock = self.ndisp = self.nfmt = 0

    def split(self, I):
        return width(I.ty) <= 8 and self.outer(I.bb)

    def outer(self, B):
        c = self.__dict__.setdefault('_outer', {})
        if B not in c:
            c[B] = B in self.vn.loopdefs and any(irole(self.vn.fn.inst[i]) == 'nwritten' for i in self.vn.loopdefs[B] if i in self.vn.fn.inst)
        return c[B]

    def header(self, S, B):
        if self.outer(B):
            u = S.user
            S.user = P0._replace(age=u.age, buf=u.buf)

    def pins(self, S):
        return {x for x in (S.user.clock,) if x is not None}

    def elem(self, S, ptr):
        start = self.slot(S, 'sinks_._M_impl._M_start')
        for k in self.where(S, ptr):
            if start is not None:
                return Lin(k[0], dict(k[1])) - start
        return None

    def notfirst(self, S, d):
        if S.nonzero(d):
            return True
        k = list(d.t.values())
        g = abs(k[0]) if k else 1
        return g > 1 and all(x % g == 0 for x in k) and d.c % g == 0 and S.nonzero(Lin(d.c // g, {a: x // g for a, x in d.t.items()}))

    def load(self, S, I, a, n):
        n_ = fname(I)
        u = S.user
        if ends(n_, 'sink_handle::p') and not any(x[0] == 'al' for x in a.t):
            r = S.read(a, n)
            if r is None:
                r = self.vn.initial(S, I, a, n)
                S.mem[(a.key(), n)] = r
                self.vn.names[(a.key(), n)] = n_
            return r
        if irole(I) == 'nwritten':
            off = life.fieldoff(I)
            d = self.elem(S, a.plus(-off) if off is not None else a)
            age = u.age
            if not u.seen and (d is None or not self.notfirst(S, d)):
                age = min(age + 1, 9)
                if age > 2:
                    age = 9
            S.user = u._replace(seen=True, d=d.key() if d is not None else u.d, age=age)
        return None

    def store(self, S, I, a, v, n):
        u = S.user
        if u.end is not None and n == 1 and S.zero(v) and a == atom(('ev', atom(('v', u.end)).key(), (0,))):
            S.user = u._replace(end=None)

    def call(self, S, I, name, args):
        u = S.user
        if args is None:
            return None
        nm = callname(I) or ''
        if I.id in self.disp:
            self.ndisp += 1
            if u.age > 1:
                return ('bad', 'a record may be run with a timestamp that was taken more than one round over all sinks before')
            if u.end is not None:
                return ('bad', 'the text of the timestamp is not terminated')
            if u.buf is not None and not S.eq(args[3], Lin(u.buf[0], dict(u.buf[1]))):
                return ('bad', 'a record is run with something else than the current timestamp')
            if not S.eq(args[2], atom(('arg', 0))):
                return ('bad', 'a record is run with something else than the consumer')
            start = self.slot(S, 'sinks_._M_impl._M_start')
            if start is None or u.d is None or not S.eq(args[4] - start, Lin(u.d[0], dict(u.d[1])).plus(self.name)):
                return ('bad', 'a record is run with the name of another sink than the one it was read from')
            return None
        if CLOCK.match(nm) or self.indirect_clock(I):
            self.nclock += 1
            S.user = u._replace(clock=I.id)
            return None
        if FORMAT.search(nm) and u.clock is not None and self.uses_clock(S, I, args):
            self.nfmt += 1
            b = single_sym(args[0])
            if b is not None and b[0] == 'al' and args[0].c == 0 and 'back_insert' not in nm:
                size = alloca_size(self.vn, args[0])
                if 'format_to_n' in nm:
                    lim = S.rng(args[1])[1]
                    if size is None or lim > size - 1:
                        return ('bad', 'the text of the timestamp may be longer than its buffer')
                    S.user = u._replace(age=0, clock=None, buf=args[0].key(), end=I.id)
                    return None
                if re.search(r'format_toIPc', nm):
                    return ('bad', 'the text of the timestamp may be longer than its buffer')
            S.user = u._replace(age=0, clock=None, buf=None, end=None)
        return None

    def indirect_clock(self, I):
        L = I.fn.inst.get(I.d['callee']) if isinstance(I.d.get('callee'), int) else None
        return L is not None and L.op == 'load' and I.id not in self.disp and ends(fieldname(I.fn, L.a[0], L) or '', '_M_invoker')

    def uses_clock(self, S, I, args):
        c = ('v', S.user.clock)

        def dep(l):
            return l is not None and any(x == c or x[0] == 'ev' and x[1] == atom(c).key() for x in l.t)
        return any(dep(a) or dep(S.read(a, 8)) for a in args)

    def branch(self, S, B, T):
        pass

    def clobber(self, S, I, name):
        if I.id in self.disp:
            return 'all'
        if re.match(r'_ZN3fmt.*(format_to|print)|_ZN3xtr6detail18command_dispatcher16process_commands', name) or CLOCK.match(name):
            return 'none'

    def unwind(self, S, I):
        return 'stop'

    def exit(self, S, I):
        pass


class Line(Rule):
    """record function of a statement without a timestamp of its own"""
    init = None

    def __init__(self, line):
        self.line = line
        self.n = 0

    def call(self, S, I, name, args):
        nm = callname(I) or ''
        if args is None or not FMT.search(nm) or not S.eq(args[0], atom(('arg', 0)).plus(self.line)):
            return None
        self.n += 1
        k = [i for i, a in enumerate(args) if S.eq(a, atom(('arg', 4)))]
        if not k or k[0] < 2:
            return ('bad', 'the line is formatted without the name of the sink')
        ts = S.read(args[k[0] - 1], 8)
        if ts is None or not S.eq(ts, atom(('arg', 3))):
            return ('bad', 'the line is formatted without the timestamp given by the background thread in front of the name')
        st = S.read(args[k[0] - 2], 8)
        s = single_sym(st) if st is not None else None
        J = self.vn.fn.inst.get(s[1]) if s and s[0] == 'v' else None
        if J is None or not J.is_call or not ends(self.callee(J), 'lstyle'):
            return ('bad', 'the line does not start with the style of its level')
        return None

    def callee(self, I):
        L = I.fn.inst.get(I.d['callee']) if isinstance(I.d.get('callee'), int) else None
        return fieldname(I.fn, L.a[0], L) if L is not None and L.op == 'load' else None

    def unwind(self, S, I):
        return 'stop'


def c22(ctx, rep):
    from .queue import run_fn, dispatches
    rep.rule('stamp', 'the reader loop runs every record with the name of the sink it was read from and a terminated, bounded timestamp text made of a clock reading not older than the round before')
    rep.rule('line', 'every record function formats the level style, the timestamp given to it and the name given to it, in this order, before the arguments')
    lib = ctx.module('loop', ctx.libbc(), keep='^_ZN3xtr6detail8consumer', noinline=NOINLINE + ['^_ZN3xtr6detail18command_dispatcher16process_commandsE'])
    run = run_fn(lib)
    c = lib.classes.get(SH)
    if c:
        life.ELEM = max(m[1] + m[3] for m in c['m'])
    R = Stamp(lib, {I.id for I in dispatches(run)})
    go(rep, 'stamp', run, R, cap=60000)
    rep.ok('reader loops', run.short())
    rep.n('dispatches', R.ndisp)
    rep.n('clock readings', R.nclock)
    rep.n('timestamps formatted', R.nfmt)
    sh = ctx.shapes()
    line = member(lib, '_ZTSN3xtr6detail6bufferE', 'line')[0]
    for n in sorted(sh.fns):
        if not re.match(r'_ZN3xtr6detail\d+trampoline', n) or not re.search(r'w_shape__(TRY_)?LOG__', n):
            continue
        fn = sh.fn(n)
        L = Line(line)
        go(rep, 'line', fn, L, cap=8000)
        rep.ok('record functions', fn.short())
        rep.n('formatted lines', L.n)
    if not rep.viol:
        rep.need('dispatches', 1)
        rep.need('clock readings', 1)
        rep.need('timestamps formatted', 1)
        rep.need('record functions', 40)
        rep.need('formatted lines', 40)
