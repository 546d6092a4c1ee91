"""Control socket: frames received, replies, connections."""
import re
from collections import namedtuple
from ..ir import addr, fieldname, vcall
from ..vn import VN, St, Rule, atom, single_sym
from ..lin import Lin
from ..build import Broken
from .vu import Track, go, term_name, sym_name, fname, ends, is_errno, errno_not, quot
from .lines import level_enum
from .io import reply_clobber, sent_frame, callname, EINTR, EAGAIN

CD = '_ZTSN3xtr6detail18command_dispatcherE'
CON = '_ZTSN3xtr6detail8consumerE'
SH = '_ZTSN3xtr6detail8consumer11sink_handleE'
CB = '_ZTSN3xtr6detail18command_dispatcher8callbackE'
POLLIN, POLLOUT, POLLHUP = 1, 4, 16
SEND_ERROR = '_ZN3xtr6detail18command_dispatcher10send_errorE'


def member(mod, cls, name):
    m = mod.member(cls, name)
    if not m:
        raise Broken('%s::%s not found' % (cls, name))
    return m


def ini(*p):
    """initial value of the memory at an address"""
    l = Lin(0)
    for x in p[:-1]:
        l = l + x if isinstance(x, Lin) else l.plus(x)
    return atom(('m', l.key(), p[-1]))


def src(vn, S, a):
    """address that the value of symbol a was loaded from"""
    while a is not None and a[0] == 'o':
        a = a[1]
    if a is None:
        return None
    if a[0] == 'm':
        return Lin(a[1][0], dict(a[1][1]))
    if a[0] == 'v':
        I = vn.fn.inst.get(a[1])
        if I is not None and I.op == 'load':
            return S.t(I.a[0])
    if a[0] == 'h' and isinstance(a[2], tuple):
        k = a[2][0]
        return Lin(k[0], dict(k[1]))
    return None


def iov(S, m):
    """(base, length) of the only element of a msghdr"""
    v = S.read(m.plus(16), 8)
    if v is None:
        return None, None
    return S.read(v, 8), S.read(v.plus(8), 8)


def alloca_size(vn, l):
    s = single_sym(l) if l is not None else None
    if s is None and l is not None:
        t = [a for a, c in l.t.items() if c == 1 and a[0] == 'al']
        s = t[0] if len(t) == 1 and len(l.t) == 1 else None
    if s and s[0] == 'al':
        sz = vn.fn.inst[s[1]].d.get('sz')
        return None if sz is None else sz - l.c
    return None


U = namedtuple('U', 'fd n buf find cb cmp called threw sent ev')


class Dispatch(Rule):
    """process_socket_read: a frame is received, looked up and handled"""
    init = U(None, None, None, None, None, None, False, False, 0, None)

    def __init__(self, mod):
        self.mod = mod
        self.size = member(mod, CB, 'size')[0]
        self.calls = self.recvs = 0

    def n(self, S):
        return atom(('v', S.user.n))

    def clobber(self, S, I, name):
        if '_Node_iterator' in name or '_Node_const_iterator' in name:
            return 'none'
        if name == 'recvmsg' and S.user.buf is not None:
            # fills the buffer; the description of the buffer stays
            b = self.vn.base_of(S.user.buf)
            return frozenset([b]) if b else None
        return reply_clobber(self.vn, S, I, name)

    def inbuf(self, S, a):
        """offset of an address in the receive buffer"""
        b = S.user.buf
        if b is None or not a.t:
            return None
        d = a - Lin(b[0], dict(b[1]))
        return d.const()

    def load(self, S, I, a, n):
        o = self.inbuf(S, a)
        if o is not None and S.user.n is not None and n and S.rng(self.n(S))[0] < o + n:
            return ('bad', 'bytes of a frame are used that may not have been received')

    def call(self, S, I, name, args):
        u = S.user
        nm = callname(I)
        if name in ('recvmsg', 'recv', 'read', 'recvfrom'):
            self.recvs += 1
            if u.n is not None:
                if S.rng(self.n(S))[1] >= 0:
                    return ('bad', 'a frame that was received is discarded')
            b, l = iov(S, args[1]) if name == 'recvmsg' else (args[1], args[2])
            sz = alloca_size(self.vn, b)
            if sz is None or l is None:
                raise Broken('receive buffer not recognised')
            if S.rng(l)[1] > sz or S.rng(l)[0] < 0:
                return ('bad', 'more bytes are received than the buffer holds')
            if not ends(term_name(self.vn, args[0]) or '', 'pollfd::fd.fd_'):
                return ('bad', 'a frame is read from another descriptor')
            S.user = u._replace(fd=args[0].key(), n=I.id, buf=b.key())
            return None
        if u.n is None:
            return None
        if re.match(r'_ZNK?St13unordered_mapIjN3xtr6detail18command_dispatcher8callbackE.*(4find|2at|5count|8contains|ix)ER', name):
            if re.search(r'ixER', name):
                return ('bad', 'a frame identifier received from a client is inserted into the table of commands')
            if not any(self.inbuf(S, a) is not None for a in args) and S.read(args[1], 4) is None:
                return ('bad', 'the identifier looked up is not that of the frame')
            for a in args:
                if self.inbuf(S, a) is not None and S.rng(self.n(S))[0] < 4:
                    return ('bad', 'the frame identifier is used although it may not have been received')
            if '4findER' in name:
                S.user = u._replace(find=I.id, cb=None, cmp=None)
            elif '2atER' in name:
                S.user = u._replace(find=None, cb=atom(('v', I.id)).key(), cmp=True)
            return None
        if re.search(r'St8__detail(eq|ne)ERK', name) and '_Node_iterator' in name or re.search(r'_Node_iterator.*(eq|ne)ERK', name):
            x = [S.read(a, 8) for a in args[:2]]
            if u.find is not None and any(v is not None and S.eq(v, atom(('v', u.find))) for v in x):
                S.user = u._replace(cmp=(I.id, 'eqERK' in name))
            return None
        if '_Node_iterator' in name and re.search(r'(ptEv|deEv)$', name):
            v = S.read(args[0], 8)
            if u.find is not None and v is not None and S.eq(v, atom(('v', u.find))):
                if not self.valid(S):
                    return ('bad', 'a command is looked up by an identifier that may be unknown')
                # the iterator stands for the entry
                r = atom(('v', u.find))
                S.user = u._replace(cb=r.plus(8).key())
                return r
            return None
        if nm == '_ZNKSt8functionIFviPvEEclEiS0_':
            self.calls += 1
            if u.cb is None or not self.valid(S):
                return ('bad', 'a command is handled although its identifier may be unknown')
            k = Lin(u.cb[0], dict(u.cb[1]))
            sz = S.read(k.plus(self.size), 8)
            if sz is None or not S.eq(sz, self.n(S)):
                return ('bad', 'a command is handled although the length of the frame may differ from what the handler expects')
            if not S.eq(args[1], Lin(u.fd[0], dict(u.fd[1]))):
                return ('bad', 'a command is handled for another client')
            if self.inbuf(S, args[2]) != 0:
                return ('bad', 'the handler is not given the frame that was received')
            if u.called:
                return ('bad', 'a command is handled twice')
            S.user = u._replace(called=True)
            return None
        k = 4 if name.startswith(SEND_ERROR) else sent_frame(self.vn, S, I, name, args)
        if k is not None:
            if k != 4:
                return ('bad', 'the reply to a command that could not be handled is not an error')
            S.user = u._replace(sent=u.sent + 1)
            if u.sent:
                return ('bad', 'more than one error is sent')
            return None
        if args and name not in ('memcpy', 'memmove') and not name.startswith('llvm.'):
            for a in args:
                if self.inbuf(S, a) is not None and S.rng(self.n(S))[0] < 4 and not name.startswith('_ZN'):
                    return ('bad', 'bytes of a frame are used that may not have been received')
        return None

    def valid(self, S):
        c = S.user.cmp
        if c is True:
            return True
        if c is None:
            return False
        v = atom(('v', c[0]))
        return S.zero(v) if c[1] else S.nonzero(v)

    def store(self, S, I, a, v, n):
        if ends(fname(I) or '', 'pollfd::events'):
            c = S.const(v)
            S.user = S.user._replace(ev=c if n == 2 or c is None else c & 0xffff)

    def unwind(self, S, I):
        if callname(I) == '_ZNKSt8functionIFviPvEEclEiS0_':
            S.user = S.user._replace(threw=True)
            return None
        return 'stop'

    def exit(self, S, I):
        u = S.user
        if I.op != 'ret':
            if u.threw and I.op == 'resume':
                return ('bad', 'an exception of a handler leaves the dispatcher')
            return None
        if u.ev is None or u.ev & POLLOUT == 0:
            return ('bad', 'the client is not scheduled for its reply and for disconnection')
        if u.n is None:
            return None
        if u.called and not u.threw:
            if u.sent:
                return ('bad', 'an error is sent although the command was handled')
            return None
        if S.rng(self.n(S))[1] <= 0:
            if S.rng(self.n(S))[1] < 0 and not errno_not(self.vn, S, EINTR):
                return ('bad', 'gives up when receiving is interrupted')
            return None
        if u.sent != 1:
            return ('bad', 'no error is sent although the command was not handled')


H = namedtuple('H', 'term valid cur acted missed reply fd name ld nul')
TEXT = 256


class Handler(Track):
    """status_handler / set_level_handler.
    term: the pattern text is terminated; valid: id of the call of valid();
    cur: (id of the match, address of the element); acted: the element was
    reported or changed; missed: a matching element was passed over;
    reply: id of the final reply; name: the name was copied
    tracks: 0 = address of the next element to look at"""

    def __init__(self, mod, kind, cls):
        self.mod, self.kind = mod, kind
        so = member(mod, CON, 'sinks_')[0]
        self.esz = mod.classes[SH]['size']
        self.scales = (self.esz,)
        self.start = ini(atom(('arg', 0)), so, 8)
        self.finish = ini(atom(('arg', 0)), so + 8, 8)
        self.text = member(mod, cls, 'pattern')[0] + member(mod, '_ZTSN3xtr6detail7patternE', 'text')[0]
        self.tlen = member(mod, '_ZTSN3xtr6detail7patternE', 'text')[2]
        self.noff = member(mod, SH, 'name')[0]
        self.nlen = member(mod, '_ZTSN3xtr6detail9sink_infoE', 'name')[2]
        self.poff = member(mod, SH, 'p')[0]
        self.doff = member(mod, SH, 'dropped_count')[0]
        self.level = ini(atom(('arg', 2)), member(mod, cls, 'level')[0], 4) if kind == 'set_level' else None
        v = level_enum(mod).values()
        self.lo, self.hi = min(v), max(v)
        self.init = (H(False, None, None, False, None, None, None, None, frozenset(), frozenset()), self.track(self.start.plus(self.esz)))
        self.n = dict(match=0, info=0, set=0, text=0, reply=0)

    fork_unsigned = True
    prefer_phi = True

    def clobber(self, S, I, name):
        return reply_clobber(self.vn, S, I, name)

    def nonneg(self, a):
        return a[0] in ('sdiv', 'udiv', 'ashr', 'lshr') or (sym_name(self.vn, a) or '').endswith('_M_string_length')

    def up(self, S, **k):
        self.state(S, S.user[0]._replace(**k))

    def disjoint(self, b1, b2):
        # the message of the client is separate from all other objects
        return ('arg', 2) in (b1, b2)

    def load(self, S, I, a, n):
        # remember where the values of this sink come from
        nm = fname(I) or ''
        if ends(nm, 'sink_handle::p', 'sink_handle::name._M_dataplus._M_p', 'sink_handle::name._M_string_length', 'sink_handle::dropped_count') or '.nwritten_' in nm or \
                '.nread_plus_capacity_' in nm or ends(nm, 'level_._M_i'):
            h = S.user[0]
            self.up(S, ld=frozenset(x for x in h.ld if x[0] != I.id) | {(I.id, a.key())})
        return None

    def src(self, S, a):
        for i, k in S.user[0].ld:
            if a == ('v', i):
                return Lin(k[0], dict(k[1]))
        return src(self.vn, S, a)

    def text_ptr(self, a):
        return len(a.t) == 1 and a.t.get(('arg', 2)) == 1 and self.text <= a.c < self.text + self.tlen

    def store(self, S, I, a, v, n):
        h = S.user[0]
        if self.text_ptr(a) and n == 1:
            if S.const(v) == 0:
                self.up(S, term=True)
            else:
                self.up(S, term=False)
        nm = fname(I) or ''
        if n == 1 and S.const(v) == 0 and self.kind == 'status' and h.cur is not None:
            self.up(S, nul=h.nul | {a.key()})
        if ends(nm, 'sink::level_._M_i', 'level_._M_i'):
            return self.set(S, I, a, v)
        return self.bound(S, a, Lin(n))

    def bound(self, S, a, n):
        """a write to a local object stays inside it"""
        al = [x for x, c in a.t.items() if x[0] == 'al' and c == 1]
        if len(al) != 1:
            return None
        sz = self.vn.fn.inst[al[0][1]].d.get('sz')
        if sz is None:
            return None
        o = a - atom(al[0]) + n
        if S.rng(o)[1] > sz or S.rng(a - atom(al[0]))[0] < 0:
            return ('bad', 'a write may exceed the message that is being built')

    def set(self, S, I, a, v):
        h = S.user[0]
        self.n['set'] += 1
        if self.kind != 'set_level':
            return ('bad', 'a level is changed by a command that must not')
        lo, hi, ex = S.rng(v)
        if lo < self.lo or hi > self.hi:
            return ('bad', 'a level received from a client is used without checking that it exists')
        if not S.eq(v, self.level):
            return ('bad', 'the level set is not the one that was requested')
        return self.act(S, a, 'a level is changed although the sink does not match the pattern') or self.up(S, acted=True)

    def act(self, S, a, text):
        """a: an address in the sink of the current element"""
        h = S.user[0]
        if h.reply is not None:
            return ('bad', 'a sink is changed or reported after the final reply')
        if h.cur is None or not S.nonzero(atom(('v', h.cur[0]))):
            return ('bad', text)
        if h.acted:
            return ('bad', 'a sink is changed or reported twice')
        if a is not None:
            b = [x for x, c in a.t.items() if c == 1]
            p = [self.src(S, x) for x in b]
            if not any(x is not None and S.eq(x, Lin(*self.e(h.cur)).plus(self.poff)) for x in p):
                return ('bad', 'the sink changed or reported is not the one that matches')
        return None

    @staticmethod
    def e(cur):
        return cur[1][0], dict(cur[1][1])

    def at_loop(self, S, B, st):
        if st.cur is not None:
            r = atom(('v', st.cur[0]))
            m = st.missed
            if not st.acted and not S.zero(r):
                m = True
            return st._replace(cur=None, acted=False, missed=m, name=None, ld=frozenset(), nul=frozenset())
        return st

    def unwind(self, S, I):
        return 'stop'

    def call(self, S, I, name, args):
        h = S.user[0]
        nm = callname(I)
        v = vcall(I)
        if v and ends(v[0], 'detail::matcher', 'matcher'):
            if v[1] == 'valid':
                self.up(S, valid=I.id)
            elif v[1] == 'operator()':
                return self.match(S, I, args)
            elif v[1] == 'error_reason':
                return self.bound(S, args[1], args[2])
            return None
        m = re.match(r'(?:llvm\.)?mem(cpy|move|set)', nm)
        if m:
            b = self.bound(S, args[0], args[2])
            if b:
                return b
            if m.group(1) != 'set' and self.kind == 'status' and h.cur is not None:
                b = single_sym(args[1])
                s = self.src(S, b) if b else None
                E = Lin(*self.e(h.cur))
                if s is not None and S.eq(s, E.plus(self.noff)):
                    la = E.plus(self.noff + 8)
                    c = S.const(args[2])
                    for ln in [atom(('m', la.key(), 8))] + [atom(('v', i)) for i, k in h.ld if S.eq(Lin(k[0], dict(k[1])), la)]:
                        if S.eq(args[2], ln) or c is not None and S.rng(ln)[0] >= c >= self.nlen - 1:
                            self.up(S, name=(args[0].key(), args[2].key()))
        if args and not nm.startswith('llvm.'):
            for a in args:
                if self.text_ptr(a) and not re.match(r'strn|memchr|memcpy|memmove|memset', nm):
                    self.n['text'] += 1
                    if not h.term:
                        return ('bad', 'text received from a client is used as a string without being terminated')
        if re.match(r'_ZNSt13unordered_mapIiN3xtr6detail18command_dispatcher15callback_resultE.*ixER', name):
            f = S.read(args[1], 4)
            if f is None or not S.eq(f, atom(('arg', 1))):
                return ('bad', 'a reply is queued for another client')
            return None
        k = 4 if name.startswith(SEND_ERROR) else sent_frame(self.vn, S, I, name, args)
        if k is not None:
            return self.reply(S, I, name, args, k)
        return None

    def match(self, S, I, args):
        h = S.user[0]
        self.n['match'] += 1
        if h.valid is None or not S.nonzero(atom(('v', h.valid))):
            return ('bad', 'a pattern is matched although it may be invalid')
        b = self.passed(S, h)
        if b:
            return b
        s = single_sym(args[1])
        a = self.src(S, s) if s else None
        if a is None or not self.qeq(S, 0, a.plus(-self.noff)):
            return ('bad', 'a sink is skipped, or its name is not what is matched')
        E = a.plus(-self.noff)
        # E starts behind the control sink and moves on only from before the end
        if quot(S, self.finish - E)[0] < self.esz and not S.nonzero(self.finish - E):
            return ('bad', 'a sink past the end of the list is matched')
        self.qset(S, 0, E.plus(self.esz))
        self.up(S, cur=(I.id, E.key()), acted=False, name=None, nul=frozenset())


    def passed(self, S, h):
        if h.missed:
            return ('bad', 'a sink that matches is left out')
        if h.cur is not None and not h.acted and not S.zero(atom(('v', h.cur[0]))):
            return ('bad', 'a sink that matches is left out')

    def complete(self, S):
        h = S.user[0]
        b = self.passed(S, h)
        if b:
            return b
        if h.valid is None or not S.nonzero(atom(('v', h.valid))):
            return ('bad', 'success is reported although the pattern may be invalid')
        if not any(quot(S, q - self.finish)[0] >= 0 for q in self.q(S, 0)):
            return ('bad', 'not all sinks are looked at')

    def reply(self, S, I, name, args, k):
        h = S.user[0]
        self.n['reply'] += 1
        if h.reply is not None:
            return ('bad', 'a reply follows the final reply')
        if k == 4:
            ok = h.valid is not None and S.zero(atom(('v', h.valid)))
            if self.level is not None:
                lo, hi, ex = S.rng(self.level)
                ok = ok or lo > self.hi or hi < self.lo
            if not ok:
                return ('bad', 'an error is reported although the request may be valid')
            if h.cur is not None or h.missed is not None:
                return ('bad', 'an error is reported after sinks were changed or reported')
            self.up(S, reply=4)
            return None
        if k == 2 and self.kind == 'status':
            self.n['info'] += 1
            b = self.act(S, None, 'a sink is reported although it does not match the pattern')
            if b:
                return b
            b = self.info(S, I, name, args)
            if b:
                return b
            self.up(S, acted=True)
            return None
        if k == 3 and self.kind == 'set_level':
            b = self.complete(S)
            if b:
                return b
            self.up(S, reply=3)
            return None
        return ('bad', 'the reply is of the wrong kind')

    def info(self, S, I, name, args):
        h = S.user[0]
        if re.match(r'_ZN3xtr6detail18command_dispatcher4sendE', name):
            p = args[2]
        else:
            p = next((q for q in (S.read(a, 8) for a in args[1:]) if q is not None and single_sym(q) and single_sym(q)[0] == 'al'), None)
        if p is None:
            return ('bad', 'the reply is not recognised')
        SI = '_ZTSN3xtr6detail9sink_infoE'
        F = p.plus(8)
        g = lambda n: S.read(F.plus(member(self.mod, SI, n)[0]), member(self.mod, SI, n)[2])
        E = Lin(*self.e(h.cur))

        def here(a):
            return a is not None and any(c == 1 and (lambda p: p is not None and S.eq(p, E.plus(self.poff)))(self.src(S, x)) for x, c in a.t.items())

        def of_sink(l, *names):
            s = single_sym(l) if l is not None else None
            a = self.src(S, s) if s else None
            return ends(sym_name(self.vn, s) or '', *names) and here(a)
        if not of_sink(g('level'), 'level_._M_i'):
            return ('bad', 'the level reported is not that of the sink')
        d = g('dropped_count')
        s = single_sym(d) if d is not None else None
        a = self.src(S, s) if s else None
        if a is None or not S.eq(a, E.plus(self.doff)):
            return ('bad', 'the number of dropped messages reported is not that of the sink')
        nb, cap = g('buf_nbytes'), g('buf_capacity')
        if nb is None or cap is None:
            return ('bad', 'the fill level of the queue is not reported')
        got = {}
        for a, c in (nb - cap).t.items():
            got[(sym_name(self.vn, a) or '').rsplit('buf_.', 1)[-1]] = c
            s = self.src(S, a)
            if not here(s):
                return ('bad', 'the fill level reported is not that of the sink')
        if got != {'nwritten_._M_i': 1, 'nread_plus_capacity_._M_i': -1} or (nb - cap).c != 0:
            return ('bad', 'the fill level reported is not what waits in the queue')
        if h.name is None or not S.eq(Lin(h.name[0][0], dict(h.name[0][1])), F.plus(member(self.mod, SI, 'name')[0])):
            return ('bad', 'the name reported is not that of the sink')
        e = Lin(h.name[0][0], dict(h.name[0][1])) + Lin(h.name[1][0], dict(h.name[1][1]))
        if not any(S.eq(e, Lin(k[0], dict(k[1]))) for k in h.nul):
            return ('bad', 'the name reported is not terminated')

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        h = S.user[0]
        if h.reply == 4:
            return None
        if self.kind == 'status':
            return self.complete(S)
        if h.reply is None:
            return ('bad', 'no reply is sent')


def c15(ctx, rep):
    rep.rule('frame', 'a frame is dispatched only if its identifier was received and is known and its length is exactly that of the handler; all other frames get one error')
    rep.rule('handler', 'pattern text is terminated before use, levels are range-checked, patterns are matched only if valid, messages are built within bounds')
    mod = ctx.lib()
    for fn in mod.by_dem(r'^xtr::detail::command_dispatcher::process_socket_read\('):
        R = Dispatch(mod)
        go(rep, 'frame', fn, R)
        rep.n('dispatch_calls', R.calls)
        rep.n('receive_calls', R.recvs)
    rep.need('dispatch_calls', 1)
    rep.need('receive_calls', 1)
    for kind in ('status', 'set_level'):
        for fn in mod.by_dem(r'^xtr::detail::consumer::%s_handler\(' % kind):
            R = Handler(mod, kind, '_ZTSN3xtr6detail%d%sE' % (len(kind), kind))
            go(rep, 'handler', fn, R)
            for k, v in R.n.items():
                rep.n(k, v)
            rep.ok('handlers', fn.short())
    rep.need('handlers', 2)
    rep.need('text', 2)


# ---------------------------------------------------------------- connections
R = namedtuple('R', 'cr send buf size erased removed ld')
CR = '_ZTSN3xtr6detail18command_dispatcher15callback_resultE'
RB = '_ZTSN3xtr6detail18command_dispatcher6bufferE'
PF = '_ZTSN3xtr6detail18command_dispatcher6pollfdE'
MSG_NOSIGNAL = 0x4000
SOCK_NONBLOCK = 0o4000


class Replies(Rule):
    """process_socket_write.
    cr: id of the lookup of the replies of the client; send: id of the last
    sendmsg; size: what it was asked to send"""
    init = R(None, None, None, None, False, False, frozenset())

    def __init__(self, mod):
        self.mod = mod
        self.pos = member(mod, CR, 'pos')[0]
        self.bufs = member(mod, CR, 'bufs')[0]
        self.boff, self.soff = member(mod, RB, 'buf')[0], member(mod, RB, 'size')[0]
        self.bsz = mod.classes[RB]['size']
        self.fd = ini(atom(('arg', 1)), member(mod, PF, 'fd')[0], 4)
        self.pfin = member(mod, CD, 'pollfds_')[0] + 8
        self.psz = mod.classes[PF]['size']
        self.fdo, self.evo = member(mod, PF, 'fd')[0], member(mod, PF, 'events')[0]
        self.sends = self.drops = 0

    def nonneg(self, a):
        return a[0] in ('sdiv', 'udiv', 'ashr', 'lshr') or ends(sym_name(self.vn, a), 'buffer::size')

    def f(self, S, o, n=8):
        """current value of a field of the replies"""
        a = atom(('v', S.user.cr)).plus(o)
        v = S.read(a, n)
        return v if v is not None else atom(('m', a.key(), n))

    def src(self, S, l):
        """address a value was loaded from"""
        if l is None or l.c or not single_sym(l):
            return None
        a = single_sym(l)
        while a[0] == 'o':
            a = a[1]
        for i, k in S.user.ld:
            if a == ('v', i):
                return Lin(k[0], dict(k[1]))
        return src(self.vn, S, a)

    def load(self, S, I, a, n):
        u = S.user
        if u.cr is None:
            return None
        if u.erased and ('v', u.cr) in a.t:
            return ('bad', 'the replies of a client are used after they were discarded')
        if n == 8 and any(ends(fname(I), x) or ends((fname(I) or '').split('._M')[0], x) for x in ('buffer::buf', 'buffer::size')):
            S.user = u._replace(ld=frozenset([x for x in u.ld if x[0] != I.id] + [(I.id, a.key())]))

    def sizes(self, S):
        """values known for the size of the reply that was sent"""
        u = S.user
        a = Lin(u.size[1][0], dict(u.size[1][1]))
        return [Lin(u.size[0][0], dict(u.size[0][1]))] + [atom(('v', i)) for i, k in u.ld if S.eq(a, Lin(k[0], dict(k[1])))]

    def element(self, S):
        return self.f(S, self.bufs) + self.f(S, self.pos).scale(self.bsz)

    def disjoint(self, b1, b2):
        # the replies are separate from the dispatcher and its connections
        if (b1 == ('v', self.crid)) != (b2 == ('v', self.crid)):
            return True
        # a client that is the last one is removed whatever is swapped
        last = ('m', atom(('arg', 0)).plus(self.pfin).key(), 8)
        return {b1, b2} == {('arg', 1), last}

    crid = None

    def clobber(self, S, I, name):
        if name in ('sendmsg', 'send', 'write', 'sendto'):
            return frozenset()
        if '15callback_resultE' in name and re.match(r'_ZNK?St13unordered_mapIi', name):
            return frozenset()
        return None

    def call(self, S, I, name, args):
        u = S.user
        if '15callback_resultE' in name and re.match(r'_ZNK?St13unordered_mapIi', name):
            k = S.read(args[1], 4) if len(args) > 1 and '5eraseE' not in name else None
            if re.search(r'(ixER|2atER)', name):
                if k is None or not S.eq(k, self.fd):
                    return ('bad', 'the replies are not those of the client')
                self.crid = I.id
                S.user = u._replace(cr=I.id)
            elif '5eraseE' in name:
                k = S.read(args[1], 4)
                if k is None or not S.eq(k, self.fd):
                    return ('bad', 'the replies that are discarded are not those of the client')
                b = self.done(S)
                if b:
                    return b
                S.user = u._replace(erased=True)
            return None
        if name in ('sendmsg', 'send', 'write', 'sendto'):
            self.sends += 1
            if u.cr is None:
                return ('bad', 'bytes are sent that are not a reply')
            if u.send is not None and S.rng(atom(('v', u.send)))[1] >= 0:
                return ('bad', 'a reply that was sent is sent again')
            if u.send is not None and errno_not(self.vn, S, EINTR):
                return ('bad', 'sending is repeated after an error')
            if not S.eq(args[0], self.fd):
                return ('bad', 'a reply is sent to another client')
            fl = S.const(args[2 if name == 'sendmsg' else 3]) if name != 'write' else 0
            if fl is None or fl & MSG_NOSIGNAL == 0:
                return ('bad', 'sending to a client that has gone raises SIGPIPE')
            b, n = iov(S, args[1]) if name == 'sendmsg' else (args[1], args[2])
            E = self.element(S)
            sb, sn = self.src(S, b), self.src(S, n)
            if sb is None or not S.eq(sb, E.plus(self.boff)) or sn is None or not S.eq(sn, E.plus(self.soff)):
                return ('bad', 'what is sent is not the next reply in full')
            sz = self.f(S, self.bufs + 8) - self.f(S, self.bufs)
            # pos never passes the number of replies: it starts at zero and
            # each step follows a send, so being different from it will do
            if quot(S, self.f(S, self.bufs + 8) - E)[0] < self.bsz and not self.differs(S):
                return ('bad', 'a reply past the last one is sent')
            S.user = u._replace(send=I.id, size=(n.key(), sn.key()))
            return None
        if re.search(r'6vectorIN3xtr6detail18command_dispatcher6pollfdE.*(8pop_backEv|5eraseE)', name):
            b = self.done(S)
            if b:
                return b
            self.drops += 1
            if '8pop_back' in name:
                fin = S.read(atom(('arg', 0)).plus(self.pfin), 8)
                fin = fin if fin is not None else ini(atom(('arg', 0)), self.pfin, 8)
                if not S.zero(atom(('arg', 1)) - fin.plus(-self.psz)):
                    v = S.read(fin.plus(-self.psz), 4)
                    if v is None or not S.eq(v, self.fd):
                        return ('bad', 'the connection that is removed is not that of the client')
                    for o, w in ((self.fdo, (4,)), (self.evo, (2, 4))):
                        m = [(S.read(atom(('arg', 1)).plus(o), x), ini(fin, o - self.psz, x)) for x in w]
                        if not any(x is not None and S.eq(x, y) for x, y in m):
                            return ('bad', 'the connection of another client is lost')
            if u.removed:
                return ('bad', 'two connections are removed')
            S.user = S.user._replace(removed=True)
        return None

    def differs(self, S):
        p, b, e = self.f(S, self.pos), self.f(S, self.bufs), self.f(S, self.bufs + 8)
        n = e - b
        for a in [a for k in S.facts for a, _ in k if a[0] in ('sdiv', 'udiv', 'ashr', 'lshr')]:
            num = Lin(a[1][0], dict(a[1][1]))
            d = Lin(a[2][0], dict(a[2][1])).const()
            d = None if d is None else 1 << d if a[0] in ('ashr', 'lshr') else d
            if d == self.bsz and S.eq(num, n) and S.nonzero(p - atom(a)):
                return True
        return False

    def done(self, S):
        """all replies were sent, or the connection failed"""
        u = S.user
        if u.send is not None:
            r = atom(('v', u.send))
            if S.rng(r)[1] < 0:
                if errno_not(self.vn, S, EAGAIN):
                    return None
                return ('bad', 'a client is disconnected although sending would merely have blocked')
        if u.cr is not None and quot(S, self.element(S) - self.f(S, self.bufs + 8))[0] >= 0:
            return None
        return ('bad', 'a client is disconnected before all its replies were sent')

    def store(self, S, I, a, v, n):
        u = S.user
        if u.cr is not None and S.eq(a, atom(('v', u.cr)).plus(self.pos)):
            d = v - self.f(S, self.pos)
            if d.const() != 1:
                return ('bad', 'a reply is skipped or repeated')
            if u.send is None or not any(S.eq(atom(('v', u.send)), x) or S.rng(x)[1] < 0 for x in self.sizes(S)):
                return ('bad', 'moves on to the next reply although this one may not have been sent in full')
            S.user = u._replace(send=None, size=None, ld=frozenset())

    def unwind(self, S, I):
        return 'stop'

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        u = S.user
        if u.removed:
            if not u.erased:
                return ('bad', 'the replies of a client that is disconnected are kept for the next client with this descriptor')
            return None
        if u.erased:
            return ('bad', 'the replies of a client are discarded although it stays connected')
        if u.send is None:
            if u.cr is not None and quot(S, self.element(S) - self.f(S, self.bufs + 8))[0] > 0:
                return None     # pos never exceeds the number of replies
            return ('bad', 'a client that has got all its replies is not disconnected')
        r = atom(('v', u.send))
        if not any(S.nonzero(r - x) for x in self.sizes(S)) and not S.rng(r)[1] < 0:
            return ('bad', 'stops although the reply may have been sent')
        if S.rng(r)[1] < 0 and not any(lo == hi == EAGAIN and len(k) == 1 and is_errno(self.vn, list(k)[0][0]) for k, (lo, hi, ex) in S.facts.items()):
            return ('bad', 'a client whose connection failed is not disconnected')


class Copy(Rule):
    """buffer(const void*, size_t): keeps a copy of exactly the bytes passed"""
    init = (None, False)

    def __init__(self, mod):
        self.boff, self.soff = member(mod, RB, 'buf')[0], member(mod, RB, 'size')[0]

    def call(self, S, I, name, args):
        a, c = S.user
        if re.match(r'_Zn[aw]m$', name):
            if not S.eq(args[0], atom(('arg', 2))) and not quot(S, args[0] - atom(('arg', 2)))[0] >= 0:
                return ('bad', 'the copy of a reply is given another size')
            S.user = (I.id, c)
        elif re.match(r'(llvm\.)?mem(cpy|move)', callname(I)):
            if a is None or not S.eq(args[0], atom(('new', a))) or not S.eq(args[1], atom(('arg', 1))) or not S.eq(args[2], atom(('arg', 2))):
                return ('bad', 'the bytes of a reply are not all copied')
            S.user = (a, True)
        return None

    def unwind(self, S, I):
        return 'stop'

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        a, c = S.user
        g = lambda o: S.read(atom(('arg', 0)).plus(o), 8)
        if not c or g(self.boff) is None or not S.eq(g(self.boff), atom(('new', a))):
            return ('bad', 'a reply is not copied')
        if g(self.soff) is None or not S.eq(g(self.soff), atom(('arg', 2))):
            return ('bad', 'the size of a reply is not kept')


class Poll(Rule):
    """process_commands: connections are accessed inside the list"""
    contexts = True
    init = None

    def __init__(self, mod):
        self.mod = mod
        self.st = member(mod, CD, 'pollfds_')[0]
        self.psz = mod.classes[PF]['size']
        self.fdo = member(mod, PF, 'fd')[0]
        self.rev = member(mod, PF, 'revents')[0]
        self.n = dict(element_accesses=0, poll_calls=0, accept_calls=0)

    def nonneg(self, a):
        return a[0] in ('sdiv', 'udiv', 'ashr', 'lshr', 'h')

    def disjoint(self, b1, b2):
        # the elements of a container are not part of the dispatcher
        return (b1 == ('arg', 0)) != (b2 == ('arg', 0)) and (b1[0] in ('m', 'v', 'h', 'o') or b2[0] in ('m', 'v', 'h', 'o'))

    def cur(self, S, o):
        a = atom(('arg', 0)).plus(self.st + o)
        v = S.read(a, 8)
        return v

    def clobber(self, S, I, name):
        if re.search(r'6vectorIN3xtr6detail18command_dispatcher6pollfdE.*8pop_backEv', name):
            return 'none'
        if '_Node_iterator' in name or name in ('sendmsg', 'recvmsg', 'accept4', 'poll', 'accept'):
            return 'none'
        if re.match(r'_ZNK?St13unordered_map|_ZNKSt8functionIFviPvEEclEiS0_', name or callname(I)):
            # tables other than the list of connections
            return frozenset()
        return None

    def call(self, S, I, name, args):
        if name == 'poll':
            self.n['poll_calls'] += 1
            f, s = self.cur(S, 8), self.cur(S, 0)
            if f is None or s is None or not S.eq(args[0], s):
                return ('bad', 'the connections polled are not those of the dispatcher')
            if quot(S, f - s - args[1].scale(self.psz))[0] < 0:
                return ('bad', 'more connections are polled than there are')
            if not S.eq(args[2], atom(('arg', 1))):
                return ('bad', 'polling does not use the given timeout')
        elif name in ('accept4', 'accept'):
            self.n['accept_calls'] += 1
            if name == 'accept' or (S.const(args[3]) or 0) & SOCK_NONBLOCK == 0:
                return ('bad', 'a connection is accepted in blocking mode')
        elif re.search(r'6vectorIN3xtr6detail18command_dispatcher6pollfdE.*8pop_backEv', name):
            f = self.cur(S, 8)
            if f is None:
                raise Broken('pollfds_: end not known')
            S.mem[(atom(('arg', 0)).plus(self.st + 8).key(), 8)] = f.plus(-self.psz)
        return None

    def load(self, S, I, a, n):
        nm = fname(I) or ''
        if not ('pollfd::' in nm):
            return None
        s = self.cur(S, 0)
        f = self.cur(S, 8)
        if s is None:
            return None
        d = a - s
        if d.const() is not None and d.const() < self.psz:
            return None
        if any(x[0] == 'al' for x in a.t) or any(c < 0 for c in d.t.values()):
            return None
        self.n['element_accesses'] += 1
        if f is None or quot(S, f - a)[0] < n:
            return ('bad', 'an element past the end of the list of connections is read')

    def unwind(self, S, I):
        return 'stop'


def c16(ctx, rep):
    rep.rule('reply', 'process_socket_write: the replies of a client are sent to it in full, in order and once; it is disconnected exactly when all were sent or the connection failed')
    rep.rule('copy', 'a queued reply is a copy of exactly the bytes passed')
    rep.rule('poll', 'process_commands: only elements inside the list of connections are read; connections are non-blocking')
    rep.rule('nonblock', 'the background thread polls without waiting; the listening socket is non-blocking')
    mod = ctx.lib()
    for fn in mod.by_dem(r'^xtr::detail::command_dispatcher::process_socket_write\('):
        r = Replies(mod)
        go(rep, 'reply', fn, r)
        rep.n('send_calls', r.sends)
        rep.n('disconnects', r.drops)
    rep.need('send_calls', 1)
    rep.need('disconnects', 1)
    for fn in mod.by_dem(r'^xtr::detail::command_dispatcher::buffer::buffer\(void const'):
        go(rep, 'copy', fn, Copy(mod))
        rep.ok('reply_copies', fn.short())
    rep.need('reply_copies', 1)
    for fn in mod.by_dem(r'^xtr::detail::command_dispatcher::process_commands\('):
        r = Poll(mod)
        go(rep, 'poll', fn, r, cap=60000)
        for k, v in r.n.items():
            rep.n(k, v)
    rep.need('element_accesses', 2)
    rep.need('poll_calls', 1)
    rep.need('accept_calls', 1)
    nonblock(mod, rep)


SOCK_SEQPACKET = 5


class Calls(Rule):
    """arguments of calls of one function"""
    def __init__(self, rx, chk):
        self.rx, self.chk = re.compile(rx), chk

    def call(self, S, I, name, args):
        if self.rx.match(callname(I) or ''):
            return self.chk(S, I, args)

    def unwind(self, S, I):
        return 'stop'


def nonblock(mod, rep):
    def sock(S, I, args):
        rep.n('listening_sockets', 1)
        t = S.const(args[1])
        if t is None or t & SOCK_NONBLOCK == 0:
            return ('bad', 'the listening socket may block')
        if t & 0xf != SOCK_SEQPACKET:
            return ('bad', 'the listening socket does not keep frames apart')

    for fn in mod.by_dem(r'^xtr::detail::command_dispatcher::command_dispatcher\(std'):
        go(rep, 'nonblock', fn, Calls(r'socket$', sock))
    rep.need('listening_sockets', 1)
    rx = re.compile(r'_ZN3xtr6detail18command_dispatcher16process_commandsE|poll$')
    for fn in mod.by_dem(r'^xtr::detail::consumer::run\('):
        S = St(VN(fn, Rule()), {}, {}, {}, None, None)
        for I in fn.calls():
            if rx.match(callname(I) or ''):
                rep.n('calls_of_process_commands', 1)
                if S.const(S.t(I.a[-1])) != 0:
                    rep.bad('nonblock', I.where(), 'the background thread waits for commands')
    rep.need('calls_of_process_commands', 1)
