"""C24: copied and assigned sinks, and what is registered for them."""
import re
from collections import namedtuple
from ..vn import atom
from ..lin import Lin
from ..build import Broken
from .vu import go, where, ends
from .io import callname
from .res import NoC, A0, A1, ini
from .cmd import member

SK = '_ZTSN3xtr4sinkE'
SH = '_ZTSN3xtr6detail8consumer11sink_handleE'
CON = '_ZTSN3xtr6detail8consumerE'
OLEVEL, OOPEN, TOPEN = atom(('olevel',)), atom(('oopen',)), atom(('topen',))
ADD = re.compile(r'6vectorIN3xtr6detail8consumer11sink_handleE.*?(9push_back|12emplace_back)')
# pubs: records posted to the other sink; own: to this sink; rec: function of the
# record being written; cap: this sink's address was stored since; regs: functions posted
C = namedtuple('C', 'level open pubs own rec cap touched')


class Copy(NoC):
    init = C(None, TOPEN.key(), 0, 0, None, False, False)

    def __init__(self, mod, fresh):
        self.fresh = fresh
        self.lv, self.op = member(mod, SK, 'level_')[0], member(mod, SK, 'open_')[0]
        self.buf = member(mod, SK, 'buf_')[0]
        self.regs = {}
        self.exits = self.copies = 0

    def same(self, S):
        return S.eq(A0, A1)

    def nonneg(self, a):
        return a in (('oopen',), ('topen',))

    def disjoint(self, b1, b2):
        return {b1, b2} == {('arg', 0), ('arg', 1)} or (b1[0] == 'al') != (b2[0] == 'al')

    def unwind(self, S, I):
        return 'stop'

    def branch(self, S, B, T):
        if self.fresh and self.same(S):
            return 'stop'       # an object that is being created is no other

    def load(self, S, I, a, n):
        if a == A1.plus(self.lv) and n == 4:
            return OLEVEL
        if a == A1.plus(self.op) and n == 1:
            return OOPEN
        if a == A0.plus(self.op) and n == 1:
            k = S.user.open
            return Lin(k[0], dict(k[1]))

    def store(self, S, I, a, v, n):
        u = S.user
        if a == A0.plus(self.lv):
            S.user = u._replace(level=v.key(), touched=True)
            return None
        if a == A0.plus(self.op):
            S.user = u._replace(open=v.key(), touched=u.touched or not self.fresh)
            return None
        if a in (A1.plus(self.lv), A1.plus(self.op)):
            return ('bad', 'the sink that is copied is changed')
        g = [x[1] for x in v.t if x[0] == 'g' and v.t[x] == 1]
        if g and 'trampoline' in g[0] and n == 8:
            S.user = u._replace(rec=g[0], cap=False)
            return None
        if n == 8 and v == A0 and u.rec and not any(x[0] == 'al' for x in a.t):
            S.user = u._replace(cap=True)
            return None
        if I.op == 'store' and I.d.get('ord') and n == 8 and ends(self.vn.name(I, I.a[1]) or '', 'buf_.nwritten_._M_i', 'buf_.nwritten_'):
            if (a - A1).const() is not None:
                return self.posted(S, I)
            if (a - A0).const() is not None and u.rec:
                S.user = u._replace(own=min(u.own + 1, 3), rec=None, cap=False, touched=True)

    def posted(self, S, I):
        u = S.user
        if not S.nonzero(OOPEN):
            return ('bad', 'a record is posted through a sink that may be closed')
        if not self.fresh and not S.zero(TOPEN) and u.own == 0:
            return ('bad', 'the sink is registered again although it was not closed before')
        if not u.rec or not u.cap:
            return ('bad', 'the record that is to register the copy does not refer to it')
        self.regs[u.rec] = I
        S.user = u._replace(pubs=min(u.pubs + 1, 3), rec=None, cap=False, touched=True)

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        u = S.user
        self.exits += 1
        if self.same(S):
            if u.touched:
                return ('bad', 'assigning a sink to itself changes it')
            return None
        if not u.touched and not S.nonzero(A0 - A1):
            return ('bad', 'a sink may be left as it was by an assignment')
        if not self.fresh and not S.nonzero(A0 - A1):
            return ('bad', 'assigning a sink to itself is not recognised')
        self.copies += 1
        if u.level != OLEVEL.key():
            return ('bad', 'the level is not that of the sink that was copied')
        o = Lin(u.open[0], dict(u.open[1]))
        if S.nonzero(OOPEN):
            if u.pubs != 1:
                return ('bad', 'the copy of an open sink is registered %s' % ('more than once' if u.pubs else 'never'))
            if not S.nonzero(o):
                return ('bad', 'the copy of an open sink may pass as closed')
            return None
        if u.pubs:
            return ('bad', 'the copy of a closed sink is registered')
        if not S.zero(OOPEN):
            return ('bad', 'the copy does not depend on whether the sink that is copied is open')
        if not S.zero(o):
            return ('bad', 'the copy of a closed sink may pass as open')
        if not self.fresh and not S.zero(TOPEN) and u.own == 0:
            return ('bad', 'a sink keeps being registered although a closed one was assigned to it')


class Reg(NoC):
    """a record function that adds a sink to the list"""
    init = (0, None, None)

    def __init__(self, mod, given):
        self.given = given      # the name comes from the record
        self.sinks = member(mod, CON, 'sinks_')[0]
        self.po, self.no, self.do = (member(mod, SH, x)[0] for x in ('p', 'name', 'dropped_count'))
        self.adds = 0

    def nonneg(self, a):
        return a[0] == 'm' and a[2] == 8

    def disjoint(self, b1, b2):
        return True

    def unwind(self, S, I):
        return 'stop'

    def src(self, k):
        """offset in the record, or 'name' and the offset in the name given"""
        if k is None or len(k.t) != 1 or k.c:
            return None
        a, = k.t
        while a[0] == 'o':
            a = a[1]
        if a[0] != 'm':
            return None
        p = Lin(a[1][0], dict(a[1][1]))
        for i in (1, 4):
            d = (p - atom(('arg', i))).const()
            if d is not None:
                return ('record' if i == 1 else 'name', d)
        return None

    def addr(self, l):
        for i in (1, 4):
            d = (l - atom(('arg', i))).const()
            if d is not None:
                return ('record' if i == 1 else 'name', d)

    def call(self, S, I, name, args):
        if args is None:
            return None
        n, cp, co = S.user
        nm = callname(I) or name
        if re.match(r'^(llvm\.mem(cpy|move)\b.*|mem(cpy|move))$', nm):
            s = self.src(args[1])
            if s and self.src(args[2]):
                S.user = (n, args[2].key(), s)
            return None
        if re.match(r'^_ZNSt7__cxx1112basic_string.*C[12]ERKS', nm):
            S.user = (n, 'ctor', self.addr(args[1]))
            return None
        if not ADD.search(nm):
            return None
        self.adds += 1
        if n:
            return ('bad', 'a sink is added to the list twice')
        if not S.eq(args[0], atom(('arg', 2)).plus(self.sinks)):
            return ('bad', 'a sink is added to another list')
        if len(args) > 2:
            p, name = S.read(args[1], 8), self.addr(args[2])
            if p is None:
                raise Broken('cannot tell which sink is added')
        else:
            h = args[1]
            p = S.read(h.plus(self.po), 8)
            ln = S.read(h.plus(self.no + 8), 8)
            if cp == 'ctor':
                name = co
            else:
                s = self.src(ln)
                if s is None and ln is not None and ln.const() is not None:
                    return ('bad', 'a sink is added under a fixed name')
                if s is None:
                    raise Broken('cannot tell under which name a sink is added')
                name = (s[0], s[1] - 8)
                if cp is not None and cp == ln.key() and co != name:
                    return ('bad', 'the name under which a sink is added is not the one given')
            d = S.read(h.plus(self.do), 8)
            if d is not None and not S.zero(d):
                return ('bad', 'a sink starts out with dropped messages')
        if name is None:
            raise Broken('cannot tell under which name a sink is added')
        s = self.src(p)
        if s is None or s[0] != 'record':
            return ('bad', 'the sink that is added is not the one in the record')
        if self.given and name[0] != 'record':
            return ('bad', 'a sink is added under a name other than the one given')
        if not self.given and name != ('name', 0):
            return ('bad', 'a copy is added under a name other than that of the sink that was copied')
        S.user = (1, None, None)

    def exit(self, S, I):
        if I.op == 'ret' and S.user[0] != 1:
            return ('bad', 'the sink is not added to the list')


def c24(ctx, rep):
    rep.rule('copy', 'copy construction and assignment on all paths: level taken over, registered once through the queue of the sink that is copied if and only if that is open, this sink closed before, self-assignment without effect')
    rep.rule('register', 'record functions that add to the list of sinks add the sink in the record, once, under the name of the sink through whose queue they came (copies) or the name in the record (new sinks)')
    mod = ctx.lib()
    fs = [(f, True) for f in mod.by_dem(r'^xtr::sink::sink\(xtr::sink const&\)')] + [(f, False) for f in mod.by_dem(r'^xtr::sink::operator=\(xtr::sink const&\)')]
    if {x for _, x in fs} != {True, False}:
        raise Broken('copying of sinks not found')
    regs = {}
    for f, fresh in fs:
        R = Copy(mod, fresh)
        go(rep, 'copy', f, R)
        rep.n('copies', R.copies)
        rep.ok('copying functions', f.short())
        regs.update(R.regs)
    for n in regs:
        if n not in mod.fns:
            raise Broken('record function %s not found' % n)
        f = mod.fn(n)
        if not any(ADD.search(callname(I) or I.callee or '') for I in f.all() if I.is_call):
            rep.bad('register', f.short(), 'the record posted for a copy does not add it to the list of sinks')
            continue
        R = Reg(mod, False)
        go(rep, 'register', f, R)
        rep.ok('records of copies', f.short())
    for f in mod.find(lambda d: 'trampoline' in d['n'] and 'logger' in d['n'] and d['n'] not in regs):
        if any(ADD.search(callname(I) or I.callee or '') for I in f.all() if I.is_call):
            R = Reg(mod, True)
            go(rep, 'register', f, R)
            rep.ok('records of new sinks', f.short())
    rep.need('copying functions', 2)
    rep.need('copies', 2)
    rep.need('records of new sinks', 1)
    if not rep.viol:
        rep.need('records of copies', 1)
