"""C23: the matcher a command asks for is the one that is made and used."""
import re
from collections import namedtuple
from ..ir import vcall
from ..vn import VN, atom, Stop
from ..lin import Lin
from ..build import Broken
from .vu import where
from .io import callname
from .res import NoC, A0
from .cmd import member

EXT, ICASE, NOSUB, CASEFOLD = 1, 2, 8, 16
BASE = '_ZN3xtr6detail7matcher'
TYPES = {'none': 0, 'extended_regex': 1, 'basic_regex': 2, 'wildcard': 3}
FAILED = 5
# obj: the object being made; mem: what it holds; comp: (offset, pattern, flags)
# of regcomp; res: its result
M = namedtuple('M', 'obj mem comp res')
NEW = M(None, frozenset(), None, None)


def lin(k):
    return Lin(k[0], dict(k[1]))


def fnof(mod, n):
    return mod.fn(n) if n in mod.fns else None


class Make(NoC):
    """follows what is stored in the matcher that is made"""
    init = NEW

    def __init__(self, mod, reads=None, stop=False, depth=0):
        self.mod, self.reads, self.stop, self.depth = mod, reads, stop, depth
        self.made = []

    def disjoint(self, b1, b2):
        return True

    def clobber(self, S, I, name):
        return 'none'

    def unwind(self, S, I):
        return 'stop'

    def load(self, S, I, a, n):
        if self.reads:
            return self.reads(a, n)

    def store(self, S, I, a, v, n):
        u = S.user
        if u.obj is not None:
            d = (a - lin(u.obj)).const()
            if d is not None and 0 <= d < 512:
                S.user = u._replace(mem=frozenset(x for x in u.mem if x[0] != (d, n)) | {((d, n), v.key())})

    def call(self, S, I, name, args):
        if args is None:
            return None
        u = S.user
        nm = callname(I) or name
        if re.match(r'^_Znwm', nm):
            o = atom(('obj', I.id, self.depth))
            if self.stop and u.obj is not None:
                return None
            S.user = NEW._replace(obj=o.key())
            return o
        v = vcall(I)
        if self.stop and (v or re.search(r"matcher(5validEv|clEPKc)$", nm)):
            if args and u.obj is not None and S.eq(args[0], lin(u.obj)):
                self.made.append((I, u))
                return 'stop'
        if nm == 'regcomp':
            if u.obj is None:
                return None
            d = (args[0] - lin(u.obj)).const()
            f = S.const(args[2])
            if d is None or f is None:
                raise Broken('cannot tell how a pattern is compiled at %s' % where(I))
            return [(u._replace(comp=(d, args[1].key(), f), res=r), Lin(r)) for r in (0, FAILED)]
        m = re.match(r'^(_ZN3xtr6detail.*)C([12])E(.*)$', nm)
        if m and u.obj is not None and args and S.eq(args[0], lin(u.obj)):
            f = fnof(self.mod, nm) or fnof(self.mod, m.group(1) + 'C%dE' % (3 - int(m.group(2))) + m.group(3))
            if f is None or self.depth > 3:
                raise Broken('constructor %s not found' % nm)
            sub = Make(self.mod, self.reads, False, self.depth + 1)
            vn = VN(f, sub, argvals=dict(enumerate(args)))
            sub.vn = vn
            vn.run(init=u)
            return [(x, None) for x in dict.fromkeys(x for _, x in sub.made)]
        return None

    def exit(self, S, I):
        if I.op == 'ret':
            self.made.append((I, S.user))


class Ask(NoC):
    """a member function of a matcher whose contents are known"""
    def __init__(self, u, pat, ic):
        self.u, self.pat, self.ic = u, pat, ic
        self.init = None
        self.mem = {k: lin(v) for k, v in u.mem}
        self.bad = []
        self.rets = 0

    def load(self, S, I, a, n):
        d = (a - A0).const()
        if d is not None:
            return self.mem.get((d, n))

    def call(self, S, I, name, args):
        nm = callname(I) or name
        if args is None or nm.startswith('llvm.'):
            return None
        if nm == 'fnmatch':
            f = S.const(args[2])
            if f is None:
                raise Broken('flags of fnmatch unknown at %s' % where(I))
            if f != (CASEFOLD if self.ic else 0):
                return ('bad', 'a wildcard is matched with the flags %#x although case is %s' % (f, 'ignored' if self.ic else 'significant'))
            if not S.eq(args[0], self.pat):
                if (8, 8) not in self.mem or any(a[0] in ('v', 'm') for a in args[0].t):
                    raise Broken('pattern given to fnmatch unknown at %s' % where(I))
                return ('bad', 'a wildcard other than the one requested is matched')
            if not S.eq(args[1], atom(('arg', 1))):
                return ('bad', 'a text other than the name is matched')
            return [(('wildcard', 1), Lin(0)), (('wildcard', 0), Lin(1))]
        if nm == 'regexec':
            if self.u.comp is None:
                return ('bad', 'a pattern that was not compiled is matched')
            if (args[0] - A0).const() != self.u.comp[0]:
                return ('bad', 'a pattern other than the one requested is matched')
            if not S.eq(args[1], atom(('arg', 1))):
                return ('bad', 'a text other than the name is matched')
            if S.const(args[4]) is None:
                raise Broken('flags of regexec unknown at %s' % where(I))
            if S.const(args[4]) != 0:
                return ('bad', 'the name is matched as if it were part of a longer text')
            return [(('regex', 1), Lin(0)), (('regex', 0), Lin(1))]
        raise Broken('%s calls %s' % (self.vn.fn.short(), nm))

    def exit(self, S, I):
        if I.op != 'ret':
            return None
        self.rets += 1
        r = S.t(I.a[0]) if I.a else None
        if r is None:
            return None
        c = S.const(r)
        if c is None and isinstance(I.a[0], int):
            c = self.vn.decide(S, I.a[0])
        self.out.append((S.user, None if c is None else int(bool(c)), I))


def ask(rep, mod, cls, meth, u, pat, ic, what):
    """[(state, result)] of a member function of the object described by u"""
    f = fnof(mod, '_ZNK3xtr6detail%s%s' % (cls, meth)) or fnof(mod, '_ZNK3xtr6detail7matcher' + meth)
    if f is None:
        raise Broken('%s of %s not found' % (meth, cls))
    R = Ask(u, pat, ic)
    R.out = []
    vn = VN(f, R)
    R.vn = vn
    vn.run()
    rep.n('states', vn.nstates)
    seen = set()
    for text, I, path in vn.viol:
        if text not in seen:
            seen.add(text)
            rep.bad('use', where(I), '%s (%s, in %s)' % (text, what, f.short()))
    return f, R.out


def judge(rep, mod, u, I, t, ic, pat, what):
    mem = dict(u.mem)
    v = mem.get((0, 8))
    g = [a[1] for a in lin(v).t if a[0] == 'g'] if v else []
    if u.obj is None or len(g) != 1:
        raise Broken('cannot tell which matcher is made for %s' % what)
    m = re.match(r'_ZTVN3xtr6detail(\d+\w+?)E$', g[0])
    if not m:
        raise Broken('unknown matcher %s' % g[0])
    cls = m.group(1)
    rep.n('matchers made')
    if u.comp and u.comp[2] & ~(EXT | ICASE | NOSUB):
        rep.bad('make', where(I), 'a pattern is compiled with flags %#x (%s)' % (u.comp[2], what))
        return
    f, out = ask(rep, mod, cls, '5validEv', u, pat, ic, what)
    want = 0 if u.res == FAILED else 1
    for _, c, J in out:
        if c is None:
            raise Broken('result of %s unknown' % f.short())
        if c != want:
            rep.bad('use', where(J), 'a pattern that %s passes as %s (%s)' % ('compiled' if want else 'did not compile', 'valid' if c else 'invalid', what))
    if not out:
        raise Broken('%s does not return' % f.short())
    if not want:
        return
    f, out = ask(rep, mod, cls, 'clEPKc', u, pat, ic, what)
    kinds = {s[0] if s else None for s, _, _ in out}
    need = {0: {None}, 1: {'regex'}, 2: {'regex'}, 3: {'wildcard'}}.get(t, {None})
    if out and kinds != need:
        n = {None: 'no pattern', 'regex': 'a regular expression', 'wildcard': 'a wildcard'}
        rep.bad('make', where(I), 'the name is matched with %s where %s was requested (%s)' % (n[sorted(kinds - need, key=str)[0]] if kinds - need else n[None], n[list(need)[0]], what))
        return
    if need == {'regex'}:
        d, p, fl = u.comp
        if (fl & EXT != 0) != (t == 1):
            rep.bad('make', where(I), '%s regular expression is compiled as %s one (%s)' % ('an extended' if t == 1 else 'a basic', 'a basic' if t == 1 else 'an extended', what))
        if (fl & ICASE != 0) != ic:
            rep.bad('make', where(I), 'a regular expression is compiled with case %s (%s)' % ('significant' if ic else 'ignored', what))
        if lin(p) != pat:
            rep.bad('make', where(I), 'a regular expression other than the one requested is compiled (%s)' % what)
    for s, c, J in out:
        if c is None:
            raise Broken('result of %s unknown' % f.short())
        if c != (s[1] if s else 1):
            rep.bad('use', where(J), 'a name that the pattern %s is taken %s (%s, in %s)' % ('matches' if not s or s[1] else 'does not match', 'not to match' if not c else 'to match', what, f.short()))
    rep.n('answers', len(out))


def c23(ctx, rep):
    rep.rule('make', 'for every type of pattern, including invalid ones, and both values of ignore_case: which class is made, with which pattern, and how the pattern is compiled')
    rep.rule('use', 'member functions of the matcher that was made, on its contents: flags and arguments of fnmatch and regexec, and what is made of their result')
    mod = ctx.lib()
    fs = mod.by_dem(r'^xtr::detail::make_matcher\(')
    if len(fs) != 1:
        raise Broken('make_matcher not found')
    fn = fs[0]
    ty = [a['ty'] for a in fn.args]
    if ty[-3:] != ['i32', 'ptr', 'i1']:
        raise Broken('unknown signature of make_matcher: %s' % ty)
    k = len(ty) - 3
    names = {v: n for n, v in TYPES.items()}
    for t in (0, 1, 2, 3, 4, -1):
        for ic in (False, True):
            what = 'pattern type %s, case %s' % (names.get(t, t), 'ignored' if ic else 'significant')
            pat = atom(('pat',))
            R = Make(mod)
            vn = VN(fn, R, argvals={k: Lin(t), k + 1: pat, k + 2: Lin(-1 if ic else 0)})
            R.vn = vn
            vn.run()
            rep.n('states', vn.nstates)
            if not R.made:
                raise Broken('make_matcher does not return for %s' % what)
            for I, u in dict.fromkeys(R.made):
                judge(rep, mod, u, I, t, ic, pat, what)
    rep.ok('requests', 'make_matcher')
    # the handlers ask for what the client sent
    PT = '_ZTSN3xtr6detail7patternE'
    po = {n: member(mod, PT, n)[0] for n in ('type', 'ignore_case', 'text')}
    for h, st in (('status_handler', '_ZTSN3xtr6detail6statusE'), ('set_level_handler', '_ZTSN3xtr6detail9set_levelE')):
        fs = mod.by_dem(r'^xtr::detail::consumer::%s\(' % h)
        if len(fs) != 1:
            raise Broken('%s not found' % h)
        base = atom(('arg', 2)).plus(member(mod, st, 'pattern')[0])
        for t in (0, 1, 2, 3):
            for ic in (False, True):
                def reads(a, n):
                    d = (a - base).const()
                    if d == po['type'] and n == 4:
                        return Lin(t)
                    if d == po['ignore_case'] and n == 1:
                        return Lin(1 if ic else 0)
                what = '%s, pattern type %s, case %s' % (h, names[t], 'ignored' if ic else 'significant')
                R = Make(mod, reads, stop=True)
                vn = VN(fs[0], R)
                R.vn = vn
                vn.run()
                rep.n('states', vn.nstates)
                seen = [x for x in dict.fromkeys(R.made) if x[0].op != 'ret']
                if not seen:
                    raise Broken('%s does not use a matcher' % h)
                for I, u in seen:
                    judge(rep, mod, u, I, t, ic, base.plus(po['text']), what)
        rep.ok('requests', h)
    rep.need('matchers made', 20)
    rep.need('answers', 20)
