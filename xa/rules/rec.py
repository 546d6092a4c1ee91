"""C21: exceptions while a line is formatted or written."""
import re
from collections import namedtuple
from ..ir import fieldname, vcall
from ..vn import Rule, atom
from ..build import Broken
from .vu import go, fname, ends
from .io import callname
from .cmd import member

BUF = '_ZTSN3xtr6detail6bufferE'
EXC = '_ZTISt9exception'
FMT = re.compile(r'_ZN3fmt.*(format_to|vformat)')
GROW = re.compile(r'_ZNSt7__cxx1112basic_string.*(6append|6assign|7replace|9push_back|6insert|9_M_append|10_M_replace|9_M_assign|aS|pL)E')
EMPTY = re.compile(r'_ZNSt7__cxx1112basic_string.*(5clear|5erase|6resize)E')
REPORT = re.compile(r'^(_ZN3fmt.*(print|report)|_ZSt|_ZNSo|f?write$|fputs$|f?printf$|v?dprintf$|__f?printf_chk$|perror$|syslog$)')
TERM = re.compile(r'^(_ZSt9terminatev|__clang_call_terminate|abort|_ZSt10unexpectedv|exit|_exit|_Exit|quick_exit)$')

# text: something may be in the line; thrown: what threw and has not been caught;
# catch: inside a handler, of what it threw; due: a caught exception that nobody has reported
# fresh: the line was emptied in this function before it was used
U = namedtuple('U', 'text thrown catch due fresh')
LEFT = 'text of this line may be left behind and becomes part of the next line'


def sources(I):
    """what may throw: formatting (the user's formatters), writing (the user's
    storage), the user's level style"""
    v = vcall(I)
    if v:
        return 'writing the log' if v[0] == 'storage_interface' else None
    n = callname(I)
    if n:
        return 'formatting' if FMT.search(n) else None
    L = I.fn.inst.get(I.d['callee']) if isinstance(I.d.get('callee'), int) else None
    if L is not None and L.op == 'load' and ends(fieldname(I.fn, L.a[0], L), 'lstyle'):
        return 'the level style'
    return None


class Contain(Rule):
    init = U(False, None, None, False, False)

    def __init__(self, line, record):
        self.line, self.record = line, record
        self.n = self.caught = 0
        self.relies = False         # on the line being empty at the start

    def isline(self, S, a):
        return any(S.eq(a, atom(('arg', i)).plus(self.line)) for i in range(len(self.vn.fn.args)))

    def fill(self, S, I, args):
        n = callname(I)
        if args and n and (FMT.search(n) or GROW.match(n)) and self.isline(S, args[0]):
            if not S.user.fresh and not S.user.text:
                self.relies = True
            S.user = S.user._replace(text=True)

    def unwind(self, S, I):
        u = S.user
        src = sources(I)
        if u.catch:
            return 'stop'           # reporting it failed as well
        if src is None:
            n = callname(I) or ''
            if not GROW.match(n):
                return 'stop'
            src = 'formatting'
        self.fill(S, I, [S.t(a) for a in I.a])
        S.user = S.user._replace(thrown=src)

    def call(self, S, I, name, args):
        u = S.user
        if args is None:
            return None
        nm = callname(I) or ''
        if TERM.match(nm):
            w = u.thrown or u.catch
            return ('bad', 'an exception thrown by %s ends the process' % w) if w else 'stop'
        if nm == '__cxa_begin_catch':
            if u.thrown:
                self.caught += 1
            S.user = u._replace(thrown=None, catch=u.thrown or 'something', due=bool(u.thrown))
            return None
        if nm == '__cxa_end_catch':
            S.user = u._replace(catch=None)
            return None
        if nm == '__cxa_rethrow' and u.catch:
            S.user = u._replace(catch=None)
            return ('bad', 'an exception is thrown on by the handler of the record')
        if REPORT.match(nm):
            S.user = u = u._replace(due=False)
        src = sources(I)
        if src:
            self.n += 1
            if I.op == 'call' and not u.catch and not I.d.get('nounw') and not I.fn.d.get('nounw'):
                return ('bad', 'an exception thrown by %s leaves the function' % src)
        self.fill(S, I, args)
        if args and EMPTY.match(nm) and self.isline(S, args[0]) and (len(args) == 1 or S.zero(args[1])):
            S.user = S.user._replace(text=False, fresh=True)
        return None

    def store(self, S, I, a, v, n):
        if ends(fname(I), 'line._M_string_length') or self.isline(S, a.plus(-8)) and n == 8:
            S.user = S.user._replace(text=not S.zero(v), fresh=True)

    def branch(self, S, B, T):
        """other types than std::exception are nobody's promise"""
        if not S.user.thrown:
            return None
        t = B.term
        if t.op != 'br' or len(t.d['succ']) != 2 or not isinstance(t.a[0], int):
            return None
        C = t.fn.inst.get(t.a[0])
        if C is None or C.op != 'icmp':
            return None
        for x in C.a:
            J = t.fn.inst.get(x) if isinstance(x, int) else None
            if J is not None and J.is_call and (J.callee or '').startswith('llvm.eh.typeid.for'):
                g = J.a[0]
                if isinstance(g, dict) and g.get('n') == EXC:
                    eq = T.id == t.d['succ'][0] if C.d.get('pred') == 'eq' else T.id == t.d['succ'][1]
                    if not eq:
                        return 'stop'

    def exit(self, S, I):
        u = S.user
        if I.op == 'resume':
            if u.thrown:
                return ('bad', 'an exception thrown by %s leaves the function' % u.thrown)
            return None
        if I.op != 'ret':
            return None
        if u.due:
            return ('bad', 'a line is lost without any report')
        if self.record and u.text and not any(S.zero(v) for k, v in S.mem.items() if k[1] == 8 and ends(self.vn.names.get(k) or '', 'line._M_string_length')):
            return ('bad', LEFT)


def c21(ctx, rep):
    rep.rule('contained', 'whatever derives from std::exception and is thrown by formatters, the level style or the storage while a record runs, or a buffer is flushed, is caught in that function and reported')
    rep.rule('own line', 'a record function leaves an empty line behind on every path, also if formatting or writing failed, unless every record function empties it first')
    lib = ctx.lib()
    line = member(lib, BUF, 'line')[0]
    sh = ctx.shapes()
    got = 0
    relies = False
    late = []
    for n in sorted(sh.fns):
        if not n.startswith('_ZN3xtr6detail11trampoline') and not n.startswith('_ZN3xtr6detail10trampoline'):
            continue
        fn = sh.fn(n)
        if not any(I.is_call and sources(I) for I in fn.all()):
            continue
        R = Contain(line, True)
        k = len(rep.viol)
        go(rep, 'own line', fn, R, cap=8000)
        late += [v for v in rep.viol[k:] if LEFT in v[2]]
        rep.viol[k:] = [v for v in rep.viol[k:] if LEFT not in v[2]]
        relies = relies or R.relies
        rep.ok('record functions', fn.short())
        rep.n('calls that may throw', R.n)
        got += R.caught
    if relies:
        rep.viol += late
    fl = lib.by_dem(r'^xtr::detail::buffer::(flush\(|~buffer\()')
    for fn in fl:
        R = Contain(line, False)
        go(rep, 'contained', fn, R, cap=8000)
        rep.ok('flush functions', fn.short())
        got += R.caught
    rep.n('exceptions caught', got)
    rep.need('record functions', 40)
    rep.need('flush functions', 1)
    rep.need('calls that may throw', 100)
    if not rep.viol:
        rep.need('exceptions caught', 40)
