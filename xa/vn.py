"""Abstract interpretation of one flattened function by value numbering with
memory.

Every SSA value and every memory slot the path has touched is described by a
linear normal form over symbols (arguments, first reads of memory, call results).
The domain is disjunctive: paths are kept apart until they meet at a loop header
with the same rule state, where the differing parts become header symbols and
only common facts survive.  Branch conditions add simple facts (interval of one
symbol, sign of a difference) that prune contradictory edges.  No solver and no
execution is involved; the number of header generalisations is bounded, so the
iteration terminates.
"""
import re
from .ir import addr, operands, mem_ptr, fieldname, pointee, vcall
from .lin import Lin, align as lin_align
from .sim import cint, width, val_width, norm, uns, Stop, Path, trace, pathstr

INF = 1 << 70
PURE = re.compile(r'^(llvm\.|_ZSt9terminatev|__clang_call_terminate|strlen$|memcmp$|memchr$|strcmp$|strerror|__errno_location$|_ZNSt9exception|__cxa_|_ZdlPv|_ZdaPv|_Zn[wa]m)')


ERRNO = frozenset([(('errno',), 1)])


def atom(a):
    return Lin(0, {a: 1})


class St:
    """mutable state of one path; copied at forks"""
    __slots__ = ('vals', 'mem', 'facts', 'user', 'node', 'vn', 'gen', 'dirty', 'inst')

    def __init__(self, vn, vals, mem, facts, user, node, gen=0, dirty=frozenset()):
        self.gen, self.dirty = gen, dirty
        self.inst = None
        self.vn, self.vals, self.mem, self.facts, self.user, self.node = vn, vals, mem, facts, user, node

    def copy(self):
        r = St(self.vn, dict(self.vals), dict(self.mem), dict(self.facts), self.user, self.node, self.gen, self.dirty)
        r.inst = self.inst
        return r

    # -- terms
    def t(self, v):
        vn = self.vn
        if isinstance(v, dict):
            c = cint(v)
            if c is not None:
                return Lin(norm(c, val_width(vn.fn, v)))
            if v.get('k') in ('undef', 'poison'):
                return atom(('undef',))
            if v.get('k') == 'ce' and v.get('op') == 'inttoptr' and cint(v['a'][0]) is not None:
                return Lin(norm(cint(v['a'][0]), 64))
            a = addr(vn.fn, v)
            return Lin(a.off, {('g', a.root[-1] if isinstance(a.root, tuple) else str(a.root)): 1})
        if v in vn.fn.argidx:
            r = self.vals.get(v)
            return r if r is not None else atom(('arg', vn.fn.argidx[v]))
        r = self.vals.get(v)
        if r is None:
            return atom(('v', v))
        return r

    def const(self, l):
        c = l.const()
        if c is not None:
            return c
        iv = self.facts.get(norm_key(l)[0])
        if iv:
            k, s, o = norm_key(l)
            lo, hi, ex = iv
            if lo == hi:
                return s * lo + o
        return None

    # -- facts about l: interval of its normalised part
    def rng(self, l):
        c = l.const()
        if c is not None:
            return c, c, frozenset()
        k, s, o = norm_key(l)
        if k not in self.facts and len(l.t) > 1:
            r = self.reduce(l)
            if r is not l:
                return self.rng(r)
        lo, hi, ex = self.facts.get(k) or (-INF, INF, frozenset())
        if s == 1:
            return lo + o, hi + o, frozenset(x + o for x in ex)
        return -hi + o, -lo + o, frozenset(o - x for x in ex)

    def reduce(self, l):
        """l with symbols eliminated by equalities that are known"""
        rows = []
        for k, (lo, hi, ex) in self.facts.items():
            if lo == hi and len(k) > 1:
                r = Lin(-lo, dict(k))
                for a, e in rows:
                    if a in r.t:
                        r = r - e.scale(r.t[a])
                for a, c in r.t.items():
                    if c in (1, -1):
                        rows.append((a, r.scale(c)))
                        break
        out = l
        for n in range(3):
            for a, e in rows:
                if a in out.t:
                    d = out - e.scale(out.t[a])
                    if len(d.t) <= len(out.t):
                        out = d
            if out.const() is not None or norm_key(out)[0] in self.facts:
                return out
        return l

    def add(self, l, lo=-INF, hi=INF, ne=None):
        """assume lo <= l <= hi and l != ne; False when contradictory"""
        c = l.const()
        if c is not None:
            return lo <= c <= hi and c != ne
        k, s, o = norm_key(l)
        if s == 1:
            a, b = lo - o, hi - o
            x = None if ne is None else ne - o
        else:
            a, b = o - hi, o - lo
            x = None if ne is None else o - ne
        l0, h0, ex = self.facts.get(k) or (-INF, INF, frozenset())
        l1, h1 = max(l0, a), min(h0, b)
        if x is not None and len(ex) < 12:
            ex = ex | {x}
        while l1 in ex:
            l1 += 1
        while h1 in ex:
            h1 -= 1
        if l1 > h1:
            return False
        ex = frozenset(e for e in ex if l1 < e < h1)
        if (l1, h1, ex) != (-INF, INF, frozenset()):
            self.facts[k] = (l1, h1, ex)
        return True

    def zero(self, l):
        """l == 0 is known"""
        lo, hi, ex = self.rng(l)
        return lo == hi == 0

    def nonzero(self, l):
        lo, hi, ex = self.rng(l)
        return lo > 0 or hi < 0 or 0 in ex

    def eq(self, a, b):
        return a == b or self.zero(a - b)

    # -- memory
    def read(self, a, n):
        return self.mem.get((a.key(), n))


def single_sym(l):
    if len(l.t) == 1:
        (a, k), = l.t.items()
        if k == 1:
            return a
    return None


_nk = {}


def norm_key(l):
    """(key, sign, offset): l == sign * N + offset with N normalised"""
    k = l.key()
    r = _nk.get(k)
    if r is None:
        it = sorted(l.t.items(), key=lambda x: str(x[0]))
        s = 1 if it[0][1] > 0 else -1
        r = (frozenset((a, c * s) for a, c in it), s, l.c)
        if len(_nk) > 200000:
            _nk.clear()
        _nk[k] = r
    return r


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}


SYSCALL = re.compile(r'(recvmsg|sendmsg|recv|send|read|write|writev|open|open64|openat|dup|socket|accept4?|poll|bind|listen|close|f(data)?sync|unlink)$')


class Rule:
    """what a property tracks; override the hooks"""
    contexts = False        # keep states that enter a loop apart
    init = None
    nonneg = ()
    fork_unsigned = False   # follow both meanings of an unsigned comparison

    def call(self, S, I, name, args):
        """called for every call; may change S.user; return None (default
        result), a Lin (result), 'stop' (path of no interest) or ('bad', text)"""

    def store(self, S, I, a, v, n):
        pass

    def load(self, S, I, a, n):
        """return a Lin to override the value, None for the default"""

    def branch(self, S, B, T):
        """after the facts of edge B -> T were added; 'stop' or ('bad', text)"""

    def unwind(self, S, I):
        pass

    def exit(self, S, I):
        pass

    def header(self, S, B):
        """before the join at a loop header"""

    def join(self, old, new):
        """generalisation of two rule states at a header; default: keep apart"""
        return None

    def clobber(self, S, I, name):
        """'none' | 'args' | 'all'"""
        return None

    fold0 = False       # 0 % n is 0 (costs states)

    def split(self, I):
        """loop states with different constants in this phi are kept apart"""
        return False

    def pins(self, S):
        """ids of values to keep although the code no longer uses them"""
        return frozenset()

    def disjoint(self, b1, b2):
        """two different base symbols are known not to point into the same object"""
        return False

    def shared(self, S, I, a, n):
        """a load that must not be value-numbered (other threads write it)"""
        return False


class VN:
    def __init__(self, fn, rule, cap=30000, argvals=None):
        self.fn = fn
        self.rule = rule
        self.cap = cap
        self.viol = []
        self.nstates = 0
        self.argvals = argvals or {}
        self._esc = None
        self.deriv = {}
        self._prep()

    # liveness of all SSA values at block entry
    def _prep(self):
        fn = self.fn
        c = getattr(fn, '_vnprep', None)
        if c:
            self.live, self.hdr, self.phis, self.loopdefs = c
            return
        use, dfn = {}, {}
        phis = {}
        for B in fn.blocks:
            u, d = set(), set()
            phis[B] = [I for I in B.insts if I.op == 'phi']
            for I in B.insts:
                if I.op == 'phi':
                    d.add(I.id)
                    continue
                for x in operands(I):
                    if isinstance(x, int) and x not in d:
                        u.add(x)
                d.add(I.id)
            use[B], dfn[B] = u, d
        live = {B: set() for B in fn.blocks}
        ch = True
        while ch:
            ch = False
            for B in reversed(fn.blocks):
                out = set()
                for S in B.succs:
                    out |= live[S]
                    for I in phis[S]:
                        for x, b in I.d['in']:
                            if b == B.id and isinstance(x, int):
                                out.add(x)
                n = use[B] | (out - dfn[B])
                if n != live[B]:
                    live[B] = n
                    ch = True
        # conditions are re-read through their operands: keep those alive too
        for B in fn.blocks:
            st = list(live[B])
            while st:
                v = st.pop()
                I = fn.inst.get(v)
                if I is not None and (width(I.ty) == 1 and I.op in ('icmp', 'and', 'or', 'xor', 'select', 'freeze', 'trunc', 'phi')):
                    for x in operands(I):
                        if isinstance(x, int) and x not in live[B]:
                            live[B].add(x)
                            st.append(x)
        hdr = {B for B in fn.blocks if any(fn.dominates(B, p) for p in B.preds)}
        loopdefs = {}
        for H in hdr:
            body = {H}
            st = [p for p in H.preds if fn.dominates(H, p)]
            while st:
                b = st.pop()
                if b in body:
                    continue
                body.add(b)
                st += b.preds
            loopdefs[H] = {I.id for b in body for I in b.insts}
        fn._vnprep = (live, hdr, phis, loopdefs)
        self.live, self.hdr, self.phis, self.loopdefs = fn._vnprep

    def escaped(self):
        if self._esc is None:
            fn = self.fn
            esc = set()
            for I in fn.all():
                if I.op == 'store' and isinstance(I.a[0], int):
                    a = addr(fn, I.a[0])
                    if isinstance(a.root, int) and a.root in fn.inst and fn.inst[a.root].op == 'alloca':
                        esc.add(a.root)
                elif I.is_call and not re.match(r'llvm\.|_ZNK?St8__detail16__extent_storage', I.callee or ''):
                    for x in I.a:
                        if isinstance(x, int):
                            a = addr(fn, x)
                            if isinstance(a.root, int) and a.root in fn.inst and fn.inst[a.root].op == 'alloca':
                                esc.add(a.root)
                elif I.op == 'phi' or I.op == 'select':
                    for x in operands(I):
                        if isinstance(x, int):
                            a = addr(fn, x)
                            if isinstance(a.root, int) and a.root in fn.inst and fn.inst[a.root].op == 'alloca':
                                esc.add(a.root)
            self._esc = esc
        return self._esc

    def exposed(self, I, before=False):
        """the allocas whose address a call may have got hold of by the time
        instruction I is executed (or, not counting I itself, before)"""
        fn = self.fn
        if not hasattr(fn, '_vnexp'):
            al = lambda x: (lambda r: r if isinstance(r, int) and r in fn.inst and fn.inst[r].op == 'alloca' else None)(
                addr(fn, x).root) if isinstance(x, int) else None
            ex, held = {}, {}
            always = set()
            for J in fn.all():
                if J.op == 'store':
                    a = al(J.a[0])
                    if a is not None:
                        d = al(J.a[1])
                        if d is None:
                            ex.setdefault(a, set()).add(J)
                        else:
                            held.setdefault(d, set()).add(a)
                elif J.is_call and not re.match(r'llvm\.|_ZNK?St8__detail16__extent_storage', J.callee or ''):
                    for x in J.a:
                        a = al(x)
                        if a is not None:
                            ex.setdefault(a, set()).add(J)
                elif J.is_call and re.match(r'llvm\.mem(cpy|move)', J.callee or ''):
                    a, d = al(J.a[1]), al(J.a[0])
                    if a is not None and d is None:
                        ex.setdefault(a, set()).add(J)
                    elif a is not None:
                        held.setdefault(d, set()).add(a)
                        held.setdefault(a, set()).add(d)
                elif J.op in ('phi', 'select'):
                    for x in operands(J):
                        a = al(x)
                        if a is not None:
                            always.add(a)
            ch = True
            while ch:
                ch = False
                for d, xs in held.items():
                    for x in xs:
                        if d in always and x not in always:
                            always.add(x)
                            ch = True
                        if ex.get(d, set()) - ex.get(x, set()):
                            ex.setdefault(x, set()).update(ex[d])
                            ch = True
            reach = {}
            for B in fn.blocks:
                seen, st = set(), list(B.succs)
                while st:
                    b = st.pop()
                    if b not in seen:
                        seen.add(b)
                        st += b.succs
                reach[B] = seen
            fn._vnexp = (ex, always, reach, {})
        ex, always, reach, memo = fn._vnexp
        key = (I.bb.id, I.idx, before)
        if key not in memo:
            out = set(always)
            for a, js in ex.items():
                for J in js:
                    if J is I:
                        if before:
                            continue
                        out.add(a)
                        break
                    if I.bb in reach[J.bb] or J.bb is I.bb and J.idx < I.idx:
                        out.add(a)
                        break
            memo[key] = out
        return memo[key]

    # -- memory slots
    def base_of(self, k):
        """the symbol an address is based on: an alloca, an argument, a loaded
        pointer"""
        c, t = k
        ptr = [a for a, n in t if n == 1 and a[0] in ('al', 'arg', 'g', 'new')]
        if len(ptr) == 1:
            return ptr[0]
        ptr = [a for a, n in t if n == 1]
        return self.deriv.get(ptr[0], ptr[0]) if len(ptr) == 1 else None

    def may_alias(self, k1, n1, nm1, k2, n2, nm2):
        if k1[1] == k2[1]:
            return not (k1[0] + n1 <= k2[0] or k2[0] + n2 <= k1[0])
        b1, b2 = self.base_of(k1), self.base_of(k2)
        if b1 and b2 and b1 != b2:
            if self.rule.disjoint(b1, b2):
                return False
            for x, y in ((b1, b2), (b2, b1)):
                if x[0] == 'al':
                    if y[0] in ('al', 'arg', 'g'):
                        return False
                    if x[1] not in self.escaped():
                        return False
                    # memory at the start has no pointer to a local
                    if y[0] == 'm':
                        return False
                    L = self.fn.inst.get(y[1]) if y[0] == 'v' else None
                    if L is not None and (L.op == 'load' or L.is_call) and x[1] not in self.exposed(L, L.op == 'load'):
                        return False
                if x[0] == 'g' and y[0] in ('g', 'al'):
                    return False
                if x[0] == 'new' and y[0] in ('new', 'al', 'arg', 'g', 'm'):
                    return False
        if nm1 and nm2 and nm1 != nm2:
            return False
        return True

    def touch(self, S, k, n, nm):
        """memory that no longer has the value it had at the start"""
        b = self.base_of(k) if k is not None else None
        if b is not None and b[0] == 'al' and b[1] not in self.escaped():
            return
        e = (k, n, nm)
        if e not in S.dirty:
            S.dirty = S.dirty | {e}

    def kill(self, S, k, n, nm, keep=None):
        self.touch(S, k, n, nm)
        dead = []
        for key in S.mem:
            k2, n2 = key
            if key == keep:
                continue
            if self.may_alias(k, n, nm, k2, n2, self.names.get(key)):
                if k[1] != k2[1]:
                    b = self.base_of(k)
                    if b is not None and b == self.base_of(k2):
                        # offsets into one object: known to be apart?
                        d = Lin(k[0], dict(k[1])) - Lin(k2[0], dict(k2[1]))
                        lo, hi, _ = S.rng(d)
                        if lo >= n2 or hi <= -n:
                            continue
                dead.append(key)
        for d in dead:
            del S.mem[d]

    def name(self, I, p):
        c = self.fn.__dict__.setdefault('_vnnames', {})
        key = (I.id, p if isinstance(p, int) else None)
        if key not in c:
            c[key] = fieldname(self.fn, p, I)
        return c[key]

    # -- conditions
    def cond(self, S, v, pol, depth=0):
        """list of states: S with v == pol assumed (S is consumed)"""
        fn = self.fn
        if isinstance(v, dict):
            c = cint(v)
            if c is not None:
                return [S] if (c & 1) == pol else []
            return [S]
        t = S.vals.get(v)
        if t is not None and isinstance(t, Lin):
            c = S.const(t)
            if c is not None:
                return [S] if (c & 1) == pol else []
            a = single_sym(t)
            if a is not None and a[0] == 'cond' and t.c == 0 and a[1] != v:
                return self.cond(S, a[1], pol, depth + 1) if depth < 12 else [S]
        I = fn.inst.get(v)
        if I is None:
            return [S] if S.add(S.t(v), pol, pol) else []
        if depth > 12:
            return [S]
        if I.op == 'xor' and cint(I.a[1]) is not None:
            return self.cond(S, I.a[0], pol ^ (cint(I.a[1]) & 1), depth + 1)
        if I.op == 'freeze':
            return self.cond(S, I.a[0], pol, depth + 1)
        if width(I.ty) == 1 and I.op in ('and', 'or') or I.op == 'select' and width(I.ty) == 1 and (cint(I.a[2]) == 0 or (cint(I.a[1]) or 0) & 1):
            if I.op == 'and' or I.op == 'select' and cint(I.a[2]) == 0:
                x, y, need = I.a[0], I.a[1], 1
            else:
                x, y, need = I.a[0], I.a[1] if I.op == 'or' else I.a[2], 0
            if pol == need:
                out = []
                for s in self.cond(S, x, need, depth + 1):
                    out += self.cond(s, y, need, depth + 1)
                return out
            S2 = S.copy()
            out = self.cond(S, x, 1 - need, depth + 1)
            for s in self.cond(S2, x, need, depth + 1):
                out += self.cond(s, y, 1 - need, depth + 1)
            return out
        if I.op == 'select' and width(I.ty) == 1:
            out = []
            S2 = S.copy()
            for s in self.cond(S, I.a[0], 1, depth + 1):
                out += self.cond(s, I.a[1], pol, depth + 1)
            for s in self.cond(S2, I.a[0], 0, depth + 1):
                out += self.cond(s, I.a[2], pol, depth + 1)
            return out
        if I.op == 'trunc' and width(I.ty) == 1:
            t = S.t(I.a[0])
            J = fn.inst.get(I.a[0]) if isinstance(I.a[0], int) else None
            if J is not None and J.op in ('load', 'phi', 'call', 'invoke') and val_width(fn, I.a[0]) == 8:
                return [S] if S.add(t, pol, pol) else []
            return [S]
        if I.op == 'icmp':
            p = I.d['pred']
            if not pol:
                p = NEG[p]
            if self.rule.fork_unsigned and p in ('ugt', 'uge'):
                a, cb = S.t(I.a[0]), S.t(I.a[1]).const()
                if cb is not None and cb >= 0 and S.rng(a)[0] < 0 and not self.unsigned(a):
                    # as a signed number: above, or negative
                    S2 = S.copy()
                    out = [S] if S.add(a, lo=cb + (p == 'ugt')) else []
                    return out + ([S2] if S2.add(a, hi=-1) else [])
            return [S] if self.compare(S, p, S.t(I.a[0]), S.t(I.a[1]), val_width(fn, I.a[0]) or val_width(fn, I.a[1])) else []
        t = S.t(v)
        return [S] if S.add(t, pol, pol) else []

    def compare(self, S, p, a, b, w):
        d = a - b
        if p == 'eq':
            if len(d.t) == 2 and set(d.t.values()) == {1, -1} and any(x[0] == 'al' for x in d.t) and all(x[0] in ('al', 'arg') for x in d.t):
                return False        # a local variable is another object than a parameter points to
            return S.add(d, 0, 0)
        if p == 'ne':
            return S.add(d, ne=0)
        if p[0] == 'u':
            ca, cb = a.const(), b.const()
            if ca is not None and ca < 0:
                ca = uns(ca, w or 64)
                a = Lin(ca) if ca < (1 << 63) else a
            if cb is not None and cb < 0:
                cb = uns(cb, w or 64)
                if cb >= (1 << 63):
                    # compare with a huge constant: nothing to learn
                    return True
                b = Lin(cb)
            if cb is not None:
                if p == 'ult':
                    return S.add(a, 0, cb - 1)
                if p == 'ule':
                    return S.add(a, 0, cb)
                lo, hi, ex = S.rng(a)
                if lo >= 0 or self.unsigned(a):
                    return S.add(a, cb + (1 if p == 'ugt' else 0))
                if p == 'ugt':
                    return S.add(a, ne=cb) and (cb != 0 or True)
                return True
            if ca is not None:
                return self.compare(S, {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}[p], b, a, w)
        q = p[1:]
        if q == 'lt':
            return S.add(d, hi=-1)
        if q == 'le':
            return S.add(d, hi=0)
        if q == 'gt':
            return S.add(d, lo=1)
        return S.add(d, lo=0)

    def unsigned(self, l):
        a = single_sym(l)
        return a is not None and l.c == 0 and (a[0] in ('z',) or self.rule.nonneg and self._nn(a))

    def _nn(self, a):
        f = self.rule.nonneg
        return callable(f) and f(a)

    # -- one instruction; returns list of successor states (usually [S])
    def exec(self, S, I):
        fn = self.fn
        op = I.op
        rule = self.rule
        w = width(I.ty)
        if op == 'getelementptr':
            if 'off' in I.d:
                r = S.t(I.a[0]).plus(I.d['off'])
                for x, s in I.d['var']:
                    r = r + S.t(x).scale(s)
                S.vals[I.id] = r
            return [S]
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if w == 1:
                S.vals[I.id] = atom(('cond', I.a[0])) if isinstance(I.a[0], int) else S.t(I.a[0])
            else:
                S.vals[I.id] = S.t(I.a[0])
            return [S]
        if op == 'alloca':
            S.vals[I.id] = atom(('al', I.id))
            return [S]
        if op in ('add', 'sub') and w and w > 1:
            a, b = S.t(I.a[0]), S.t(I.a[1])
            r = a + b if op == 'add' else a - b
            c = r.const()
            S.vals[I.id] = Lin(norm(c, w)) if c is not None else r
            return [S]
        if op in ('mul', 'shl') and w and w > 1:
            a, b = S.t(I.a[0]), S.t(I.a[1])
            ca, cb = S.const(a), S.const(b)
            if cb is not None:
                k = cb if op == 'mul' else (1 << cb if 0 <= cb < 64 else None)
                if k is not None:
                    r = a.scale(k)
                    c = r.const()
                    S.vals[I.id] = Lin(norm(c, w)) if c is not None else r
                    return [S]
            if ca is not None and op == 'mul':
                S.vals[I.id] = b.scale(ca)
                return [S]
            S.vals[I.id] = atom((op, a.key(), b.key()))
            return [S]
        if op in ('and', 'or', 'xor', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem') and w and w > 1:
            a, b = S.t(I.a[0]), S.t(I.a[1])
            ca, cb = S.const(a), S.const(b)
            if ca == 0 and self.rule.fold0 and op in ('udiv', 'urem', 'sdiv', 'srem', 'lshr', 'ashr', 'and'):
                S.vals[I.id] = Lin(0)
                return [S]
            if ca is not None and cb is not None and not (op in ('udiv', 'urem', 'sdiv', 'srem') and cb == 0):
                ua, ub = uns(ca, w), uns(cb, w)
                r = {'and': lambda: ca & cb, 'or': lambda: ca | cb, 'xor': lambda: ca ^ cb, 'lshr': lambda: ua >> ub,
                     'ashr': lambda: ca >> ub, 'udiv': lambda: ua // ub, 'urem': lambda: ua % ub,
                     'sdiv': lambda: int(ca / cb), 'srem': lambda: ca - int(ca / cb) * cb}[op]()
                S.vals[I.id] = Lin(norm(r, w))
                return [S]
            if op == 'sdiv' and cb and a.c % cb == 0 and all(k % cb == 0 for k in a.t.values()):
                S.vals[I.id] = Lin(a.c // cb, {x: k // cb for x, k in a.t.items()})
                return [S]
            if op == 'ashr' and cb is not None and 0 < cb < 32:
                # floor((x + n*d) / d) == floor(x / d) + n
                d = 1 << cb
                o = Lin(a.c // d, {x: k // d for x, k in a.t.items() if k % d == 0})
                r = Lin(a.c % d, {x: k for x, k in a.t.items() if k % d})
                S.vals[I.id] = o + (atom((op, r.key(), b.key())) if r.t else Lin(0))
                return [S]
            S.vals[I.id] = atom((op, a.key(), b.key()))
            return [S]
        if op == 'zext':
            if val_width(fn, I.a[0]) == 1:
                out = []
                c = self.decide(S, I.a[0])
                if c is not None:
                    S.vals[I.id] = Lin(c)
                    return [S]
                S2 = S.copy()
                for s in self.cond(S, I.a[0], 1):
                    s.vals[I.id] = Lin(1)
                    out.append(s)
                for s in self.cond(S2, I.a[0], 0):
                    s.vals[I.id] = Lin(0)
                    out.append(s)
                return out
            t = S.t(I.a[0])
            c = t.const()
            S.vals[I.id] = Lin(uns(c, val_width(fn, I.a[0]))) if c is not None else t
            return [S]
        if op == 'sext':
            t = S.t(I.a[0])
            if val_width(fn, I.a[0]) == 1:
                out = []
                S2 = S.copy()
                for s in self.cond(S, I.a[0], 1):
                    s.vals[I.id] = Lin(-1)
                    out.append(s)
                for s in self.cond(S2, I.a[0], 0):
                    s.vals[I.id] = Lin(0)
                    out.append(s)
                return out
            S.vals[I.id] = t
            return [S]
        if op == 'trunc':
            t = S.t(I.a[0])
            c = S.const(t)
            if c is not None:
                S.vals[I.id] = Lin(norm(c, w) if w > 1 else c & 1)
            elif w == 1:
                S.vals.pop(I.id, None)
            elif w >= 32:
                S.vals[I.id] = t
            else:
                S.vals[I.id] = atom(('trunc', w, t.key()))
            return [S]
        if op == 'icmp':
            c = self.decide(S, I.id, fresh=True)
            if c is not None:
                S.vals[I.id] = Lin(c)
            else:
                S.vals.pop(I.id, None)
            return [S]
        if w == 1 and op in ('and', 'or', 'xor', 'freeze'):
            S.vals.pop(I.id, None)
            return [S]
        if op == 'select':
            if w == 1:
                S.vals.pop(I.id, None)
                return [S]
            out = []
            S2 = S.copy()
            for s in self.cond(S, I.a[0], 1):
                s.vals[I.id] = s.t(I.a[1])
                out.append(s)
            for s in self.cond(S2, I.a[0], 0):
                s.vals[I.id] = s.t(I.a[2])
                out.append(s)
            return out
        if op == 'load':
            a = S.t(I.a[0])
            n = I.d.get('sz')
            r = rule.load(S, I, a, n)
            if isinstance(r, tuple):
                return self.result(S, I, r)
            if r is None:
                if I.d.get('ord') or I.d.get('vol') or rule.shared(S, I, a, n):
                    r = self.fresh(S, I)
                else:
                    key = (a.key(), n)
                    r = S.mem.get(key)
                    if r is None:
                        r = self.partial(S, a, n)
                    if r is None:
                        r = self.initial(S, I, a, n)
                        S.mem[key] = r
                        nm = self.name(I, I.a[0])
                        if nm or key not in self.names:
                            self.names[key] = nm
            S.vals[I.id] = r
            return [S]
        if op == 'store':
            a = S.t(I.a[1])
            n = I.d['sz']
            v = S.t(I.a[0])
            if val_width(fn, I.a[0]) == 1:
                c = self.decide(S, I.a[0])
                v = Lin(c) if c is not None else atom(('v', I.id))
            r = rule.store(S, I, a, v, n)
            if isinstance(r, tuple) or r == 'stop':
                return self.result(S, I, r)
            nm = self.name(I, I.a[1])
            if nm is None and n == 1:
                nm = self.char_dest(S, I, I.a[1], a)
            key = (a.key(), n)
            self.kill(S, a.key(), n, nm, keep=key)
            S.mem[key] = v
            if nm or key not in self.names:
                self.names[key] = nm
            return [S]
        if op in ('atomicrmw', 'cmpxchg'):
            a = S.t(I.a[0])
            r = rule.store(S, I, a, atom(('rmw', I.id)), I.d.get('sz') or 8)
            if isinstance(r, tuple) or r == 'stop':
                return self.result(S, I, r)
            self.kill(S, a.key(), I.d.get('sz') or 8, self.name(I, I.a[0]))
            self.fresh(S, I)
            S.vals[I.id] = atom(('v', I.id))
            return [S]
        if I.is_call:
            return self.do_call(S, I)
        if op == 'extractvalue' or op == 'insertvalue':
            return self.aggregate(S, I)
        if op in ('landingpad',):
            S.vals[I.id] = self.fresh(S, I)
            return [S]
        if I.ty != 'void':
            S.vals[I.id] = self.fresh(S, I)
        return [S]

    def aggregate(self, S, I):
        if I.op == 'insertvalue' and I.d.get('idx') is not None:
            b = S.t(I.a[0]).single()
            comp = dict(b[1]) if b and b[0] == 'agg' else {}
            comp[tuple(I.d['idx'])] = S.t(I.a[1]).key()
            S.vals[I.id] = atom(('agg', frozenset(comp.items())))
            return [S]
        if I.op == 'extractvalue' and isinstance(I.a[0], int) and I.d.get('idx') is not None:
            b = S.t(I.a[0]).single()
            if b and b[0] == 'agg':
                k = dict(b[1]).get(tuple(I.d['idx']))
                if k is not None:
                    S.vals[I.id] = Lin(k[0], dict(k[1]))
                    return [S]
        S.vals[I.id] = self.fresh(S, I)
        if I.op == 'extractvalue' and isinstance(I.a[0], int):
            ix = I.d.get('idx')
            if ix is not None:
                S.vals[I.id] = atom(('ev', S.t(I.a[0]).key(), tuple(ix)))
                J = self.fn.inst.get(I.a[0])
                if J is not None and J.is_call and J.a and tuple(ix) == (0,) and 'format_to' in (J.callee or ''):
                    # an output iterator points where the first argument does
                    b = self.base_of(S.t(J.a[0]).key())
                    if b and b[0] == 'al':
                        self.deriv[('ev', S.t(I.a[0]).key(), (0,))] = b
        return [S]

    def ret(self, S, I):
        """components of a returned aggregate, or the value returned"""
        if not I.a:
            return None
        l = S.t(I.a[0])
        b = l.single()
        if b and b[0] == 'agg':
            d = dict(b[1])
            return [Lin(d[k][0], dict(d[k][1])) for k in sorted(d)]
        return [l]

    def partial(self, S, a, n):
        """a narrower read of a constant slot"""
        ak = a.key()
        for (k, m), v in S.mem.items():
            if k[1] == ak[1] and m > n and k[0] <= ak[0] and ak[0] + n <= k[0] + m:
                c = v.const()
                if c is not None:
                    o = ak[0] - k[0]
                    return Lin(norm((uns(c, 8 * m) >> (8 * o)) & ((1 << (8 * n)) - 1), 8 * n))
        return None

    def initial(self, S, I, a, n):
        """symbol for memory not yet touched on this path"""
        b = self.base_of(a.key())
        if b and (b[0] == 'arg' or b[0] == 'm' or b[0] == 'g') and S.gen == 0 \
                and not any(self.dirtied(e, a.key(), n, self.name(I, I.a[0])) for e in S.dirty):
            return atom(('m', a.key(), n))
        return self.fresh(S, I)

    def dirtied(self, e, k, n, nm):
        k2, n2, nm2 = e
        if k2 == 'obj':
            return self.base_of(k) == n2 and k[0] >= nm2
        # strict aliasing: objects of different size are different objects
        if k2 is None:
            return not (nm and nm2 and nm != nm2) and n == n2
        if k2[1] != k[1] and n2 != n and n2 <= 8:
            return False
        # raw memory (records in a queue, characters) does not overlap members
        if nm and not nm2 and self.base_of(k2) != self.base_of(k):
            return False
        return self.may_alias(k2, n2, nm2, k, n, nm)

    def fresh(self, S, I):
        """new instance of the symbol of an instruction: whatever was known
        about the previous instance is forgotten"""
        a = ('v', I.id)
        self.retire(S, a)
        return atom(a)

    def retire(self, S, a):
        """values computed from an earlier instance of a symbol keep it under
        another name; memory addressed through it is forgotten"""
        def pred(x):
            return x == a
        used = [k for k, v in S.vals.items() if isinstance(v, Lin) and any(self.deep(x, pred) for x in v.t)]
        inuser = self.deep(('', S.user), pred) if isinstance(S.user, (tuple, frozenset)) else False
        if used or inuser:
            o = ('o', a)
            self.retire(S, o) if self.depth(o) < 4 else self.forget(S, lambda x: x == o)
            memo = {}
            for k in used:
                S.vals[k] = self.subst(S.vals[k], a, o, memo)
            if inuser:
                S.user = self.subst_any(S.user, a, o)
            for k in [k for k in S.facts if any(self.deep(x, pred) for x, _ in k)]:
                v = S.facts.pop(k)
                S.facts[frozenset((self.subst_any(x, a, o), c) for x, c in k)] = v
            for k in [k for k, v in S.mem.items() if any(self.deep(x, pred) for x in v.t)]:
                if any(self.deep(x, pred) for x, _ in k[0][1]):
                    continue
                S.mem[k] = self.subst(S.mem[k], a, o, memo)
        def old(e):
            return isinstance(e[0], tuple) and any(self.deep(x, pred) for x, _ in e[0][1])
        if any(old(e) for e in S.dirty):
            S.dirty = frozenset((None, e[1], e[2]) if old(e) else e for e in S.dirty)
        self.forget(S, pred)

    def depth(self, o):
        n = 0
        while o[0] == 'o':
            o, n = o[1], n + 1
        return n

    def subst(self, l, a, o, memo=None):
        return Lin(l.c, {self.subst_any(x, a, o): c for x, c in l.t.items()})

    def subst_any(self, x, a, o):
        if x == a:
            return o
        if isinstance(x, tuple):
            y = [self.subst_any(z, a, o) for z in x]
            return type(x)(*y) if hasattr(x, '_fields') else tuple(y)
        if isinstance(x, frozenset):
            return frozenset(self.subst_any(z, a, o) for z in x)
        return x

    def forget(self, S, pred):
        def has(k):
            return any(self.deep(x, pred) for x, _ in k)
        for k in [k for k in S.facts if has(k)]:
            del S.facts[k]
        for k in [k for k, v in S.mem.items() if (has(k[0][1]) or has(v.t.items()))]:
            del S.mem[k]

    def deep(self, x, pred):
        if pred(x):
            return True
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and self.deep(y, pred):
                    return True
                if isinstance(y, frozenset) and any(self.deep(z, pred) for z in y if isinstance(z, (tuple, frozenset))):
                    return True
        elif isinstance(x, frozenset):
            return any(self.deep(z, pred) for z in x if isinstance(z, (tuple, frozenset)))
        return False

    def decide(self, S, v, fresh=False):
        """truth value of an i1 if the facts settle it"""
        if isinstance(v, dict):
            c = cint(v)
            return None if c is None else c & 1
        if not fresh:
            t = S.vals.get(v)
            if t is not None:
                c = S.const(t)
                if c is not None:
                    return c & 1
        t = bool(self.cond(S.copy(), v, 1))
        f = bool(self.cond(S.copy(), v, 0))
        if t and not f:
            return 1
        if f and not t:
            return 0
        return None

    def result(self, S, I, r):
        if r == 'stop':
            return []
        if isinstance(r, tuple) and r and r[0] == 'bad':
            self.viol.append((r[1], I, trace(S.node)))
            return []
        raise AssertionError(r)

    def do_call(self, S, I):
        fn, rule = self.fn, self.rule
        nm = I.callee or ''
        if nm.startswith('llvm.'):
            if nm.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental', 'llvm.invariant')):
                r = rule.call(S, I, nm, None) if nm.startswith('llvm.lifetime') else None
                if isinstance(r, tuple) or r == 'stop':
                    return self.result(S, I, r)
                return [S]
            if nm.startswith(('llvm.launder', 'llvm.strip')):
                S.vals[I.id] = S.t(I.a[0])
                return [S]
            m = re.match(r'llvm\.(u|s)(min|max)\.', nm)
            if m:
                a, b = S.t(I.a[0]), S.t(I.a[1])
                w = width(I.ty)
                out = []
                S2 = S.copy()
                less = m.group(1) + 'le'
                if self.compare(S, less, a, b, w):
                    S.vals[I.id] = a if m.group(2) == 'min' else b
                    out.append(S)
                if self.compare(S2, NEG[less], a, b, w):
                    S2.vals[I.id] = b if m.group(2) == 'min' else a
                    out.append(S2)
                return out
        args = [S.t(x) for x in I.a]
        if nm == '__errno_location':
            S.vals[I.id] = atom(('errno',))
            return [S]
        if re.search(r'16__extent_storageILm18446744073709551615EEC[12]Em$', nm) and len(args) == 2:
            self.kill(S, args[0].key(), 8, None)
            S.mem[(args[0].key(), 8)] = args[1]
            return [S]
        if nm.endswith('9_M_extentEv') and args:
            # size of a std::span: a plain accessor
            key = (args[0].key(), 8)
            r = S.mem.get(key)
            if r is None:
                r = self.fresh(S, I)
                S.mem[key] = r
            S.vals[I.id] = r
            return [S]
        r = rule.call(S, I, nm, args)
        if isinstance(r, tuple) or r == 'stop':
            return self.result(S, I, r)
        forks = None
        if isinstance(r, list):
            forks = r
            r = None
        if re.match(r'llvm\.mem(cpy|move|set)|mem(cpy|move|set)$', nm):
            self.memop(S, I, nm, args)
        else:
            if not PURE.match(nm) and I.op != 'br':
                for k in [k for k in S.mem if k[0][1] == ERRNO]:
                    del S.mem[k]
            c = rule.clobber(S, I, nm)
            if c is None:
                c = 'none' if PURE.match(nm) else 'args'
            if isinstance(c, (set, frozenset)):
                # exactly these objects may change
                S.dirty |= {('obj', b, -INF) for b in c}
                for k in list(S.mem):
                    if self.base_of(k[0]) in c:
                        del S.mem[k]
                c = 'none'
            if c == 'all':
                for k in [k for k in S.mem if not self.private(k)]:
                    del S.mem[k]
                S.gen = I.id
            elif c == 'args':
                exp = self.exposed(I)
                roots = set()
                for a in args:
                    b = self.base_of(a.key())
                    if b:
                        roots.add(b)
                        if b[0] in ('arg', 'm', 'g') and not nm.startswith('llvm.'):
                            S.dirty |= {('obj', b, a.key()[0] if b[0] == 'arg' else -INF)}
                for k in list(S.mem):
                    b = self.base_of(k[0])
                    if b is None or b in roots or (b[0] == 'al' and b[1] in exp):
                        if b and b[0] == 'arg' and b in roots:
                            # only the sub-object passed may change
                            if not any(self.base_of(a.key()) == b and a.key()[0] <= k[0][0] for a in args):
                                continue
                        if b and b[0] == 'al' and b in roots and b[1] not in self.exposed(I, True) and len(k[0][1]) == 1:
                            if all(self.base_of(a.key()) != b or a.key()[0] >= k[0][0] + k[1] and len(a.t) == 1 for a in args):
                                continue
                        del S.mem[k]
        if I.ty != 'void':
            if isinstance(r, Lin):
                S.vals[I.id] = r
            elif re.match(r'_Zn[wa]m', nm):
                self.fresh(S, I)
                S.vals[I.id] = atom(('new', I.id))
            else:
                S.vals[I.id] = self.fresh(S, I)
                if r is None and SYSCALL.match(nm):
                    S.add(S.vals[I.id], lo=-1)
        if forks is not None:
            out = []
            for u, v in forks:
                s = S.copy()
                s.user = u
                if v is not None:
                    s.vals[I.id] = v
                out.append(s)
            return out
        return [S]

    def private(self, k):
        b = self.base_of(k[0])
        return b is not None and b[0] == 'al' and b[1] not in self.escaped()

    def memop(self, S, I, nm, args):
        d, n = args[0], S.const(args[2]) if len(args) > 2 else None
        dk = d.key()
        cp = []
        if 'set' not in nm:
            if n is not None:
                sk = args[1].key()
                for key, v in S.mem.items():
                    k, m = key
                    if k[1] == sk[1] and sk[0] <= k[0] and k[0] + m <= sk[0] + n:
                        cp.append((((dk[0] + k[0] - sk[0], dk[1]), m), v, self.names.get(key)))
        elif n is not None and S.const(args[1]) == 0 and n <= 512:
            pass
        self.kill(S, dk, n if n is not None else 1 << 40, self.char_dest(S, I, I.a[0], d))
        for key, v, nm2 in cp:
            S.mem[key] = v
            self.names.setdefault(key, nm2)
        if 'set' in nm and n is not None and S.const(args[1]) == 0 and n <= 512:
            for o in range(0, n - 7, 8):
                S.mem[((dk[0] + o, dk[1]), 8)] = Lin(0)

    def char_dest(self, S, I, p, d):
        """name of the characters of a std::string when a copy goes there"""
        if isinstance(p, int):
            nm = self.name(I, p)
            if nm and nm.endswith('_M_local_buf'):
                return nm
        for a, k in d.t.items():
            nm = None
            if k == 1 and a[0] == 'm':
                nm = self.names.get((a[1], a[2]))
            elif k == 1 and a[0] == 'v':
                J = self.fn.inst.get(a[1])
                if J is not None and J.op == 'load':
                    nm = self.name(J, J.a[0])
            elif k == 1 and a[0] == 'h' and isinstance(a[2], tuple):
                nm = self.names.get(a[2])
            if nm and nm.endswith('_M_dataplus._M_p'):
                return nm[:-len('_M_dataplus._M_p')] + '._M_local_buf'
        return None

    # -- driver
    def run(self, init=None, start=None):
        """start: begin at this block with everything defined before unknown"""
        fn, rule = self.fn, self.rule
        self.names = {}
        S0 = St(self, {}, {}, {}, rule.init if init is None else init, None)
        self.start = start
        if start is not None:
            for I in fn.all():
                if I.op == 'alloca':
                    S0.vals[I.id] = atom(('al', I.id))
            S0.gen = -1
        for i, a in enumerate(fn.args):
            if i in self.argvals:
                S0.vals[a['id']] = self.argvals[i]
        work = [(start or fn.entry, S0, None)]
        self.hstate = {}
        self.insts = {}
        seen = {}
        while work:
            B, S, par = work.pop()
            if B in self.hdr:
                r = rule.header(S, B)
                if r == 'stop':
                    continue
                if isinstance(r, tuple):
                    self.viol.append((r[1], B.insts[0], trace(par)))
                    continue
                if rule.contexts:
                    # each entry of a loop is followed on its own
                    i = dict(S.inst or ())
                    if par is None or not fn.dominates(B, par.block):
                        k = (B, frozenset((k, v.key()) for k, v in S.vals.items()),
                             frozenset((k, v.key()) for k, v in S.mem.items()), S.gen, frozenset(S.facts.items()), S.user)
                        i[B.id] = self.insts.setdefault(k, len(self.insts))
                    S.inst = tuple(sorted(i.items()))
                S = self.at_header(B, S)
                if S is None:
                    continue
            key = (B, frozenset((k, v.key()) for k, v in S.vals.items()),
                   frozenset((k, v.key()) for k, v in S.mem.items()), S.gen, frozenset(S.facts.items()), S.user)
            ds = seen.setdefault(key, [])
            if any(S.dirty <= d for d in ds):
                continue
            ds.append(S.dirty)
            self.nstates += 1
            if self.nstates > self.cap:
                raise Stop('state cap in ' + fn.short())
            S.node = Path(B, par)
            states = [S]
            T = B.term
            for I in B.insts:
                if I.op == 'phi':
                    continue
                if I is T and not I.is_call:
                    break
                if I is T and I.op == 'invoke':
                    pre = [s.copy() for s in states]
                    S_un = fn.bb[I.d['unwind']]
                    for s in pre:
                        r = rule.unwind(s, I)
                        if r == 'stop':
                            continue
                        if isinstance(r, tuple):
                            self.result(s, I, r)
                            continue
                        if rule.clobber(s, I, I.callee or '') == 'all':
                            for k in [k for k in s.mem if not self.private(k)]:
                                del s.mem[k]
                        self.goto(work, s, B, S_un)
                nxt = []
                for s in states:
                    nxt += self.exec(s, I)
                states = nxt
                if not states:
                    break
            if not states:
                continue
            if not B.succs:
                for s in states:
                    if T.op != 'unreachable':
                        r = rule.exit(s, T)
                        if isinstance(r, tuple):
                            self.viol.append((r[1], T, trace(s.node)))
                continue
            for s in states:
                if T.op == 'br' and len(T.d['succ']) == 2 and T.d['succ'][0] != T.d['succ'][1]:
                    s2 = s.copy()
                    for x in self.cond(s, T.a[0], 1):
                        self.take(work, x, B, fn.bb[T.d['succ'][0]])
                    for x in self.cond(s2, T.a[0], 0):
                        self.take(work, x, B, fn.bb[T.d['succ'][1]])
                elif T.op == 'switch':
                    v = s.t(T.a[0])
                    w = val_width(fn, T.a[0])
                    cs = T.d['cases']
                    d = s.copy()
                    ok = True
                    for c, b in cs:
                        x = s.copy()
                        k = norm(int(c), w)
                        if x.add(v, k, k):
                            self.take(work, x, B, fn.bb[b])
                        ok = ok and d.add(v, ne=k)
                    if ok:
                        self.take(work, d, B, fn.bb[T.d['def']])
                elif T.op == 'invoke':
                    self.goto(work, s, B, fn.bb[T.d['normal']])
                else:
                    for t in B.succs:
                        self.take(work, s.copy(), B, t)
        return self.viol

    def take(self, work, S, B, T):
        r = self.rule.branch(S, B, T)
        if r == 'stop':
            return
        if isinstance(r, tuple):
            self.result(S, B.term, r)
            return
        self.goto(work, S, B, T)

    def goto(self, work, S, B, T):
        new = {}
        for I in self.phis[T]:
            for x, b in I.d['in']:
                if b == B.id:
                    if width(I.ty) == 1 and isinstance(x, int):
                        c = self.decide(S, x)
                        new[I.id] = Lin(c) if c is not None else (S.vals[x] if x in S.vals and x not in self.fn.argidx else atom(('cond', x)))
                    else:
                        new[I.id] = S.t(x)
                    break
        lv = self.live[T]
        # conditions a phi refers to need their operands
        keep = set(lv) | self.rule.pins(S)
        st = [l for l in new.values()]
        for k, l in S.vals.items():
            if k in lv:
                st.append(l)
        for l in st:
            a = single_sym(l) if isinstance(l, Lin) else None
            if a is not None and a[0] == 'cond':
                q = [a[1]]
                while q:
                    v = q.pop()
                    if v in keep:
                        continue
                    keep.add(v)
                    J = self.fn.inst.get(v)
                    if J is not None and (width(J.ty) == 1):
                        q += [x for x in operands(J) if isinstance(x, int)]
        S.vals = {k: v for k, v in S.vals.items() if k in keep or k in self.fn.argidx}
        S.vals.update(new)
        work.append((T, S, S.node))

    def at_header(self, B, S):
        key = (B, dict(S.inst or ()).get(B.id), S.user, tuple((I.id, S.vals[I.id].c) for I in self.phis[B] if (width(I.ty) == 1 or self.rule.split(I)) and I.id in S.vals and S.vals[I.id].const() is not None))
        old = self.hstate.get(key)
        if old is None:
            self.hstate[key] = (dict(S.vals), dict(S.mem), dict(S.facts), 0, S.gen, S.dirty)
            return S
        ov, om, of, n, og, od = old
        ren = {}
        vals, mem = {}, {}
        # values that agree on both paths before and after stay one symbol
        groups = {}

        def gen1(k, a, b):
            if a == atom(('h', B.id, k)):
                return a
            s = single_sym(a)
            if s is not None and a.c == 0 and a.t.get(s) == 1 and s[0] == 'h' and s[1] == B.id:
                j = s[2]
                if (om if isinstance(j, tuple) else ov).get(j) == a:
                    if (S.mem if isinstance(j, tuple) else S.vals).get(j) == b:
                        return a
                elif a == b:
                    return a
            elif a == b:
                return a
            r = groups.setdefault((a.key(), b.key()), k)
            if isinstance(k, tuple):
                r = k       # each slot has its own name
            ren[r] = 1
            return atom(('h', B.id, r))
        for k in sorted(set(om) & set(S.mem), key=str):
            mem[k] = gen1(k, om[k], S.mem[k])
        for k in sorted(set(ov) & set(S.vals)):
            vals[k] = gen1(k, ov[k], S.vals[k])
        gen = og if og == S.gen else B.id + 1000000
        # facts: common ones (hull of the intervals), about symbols that were
        # not generalised just now
        facts = {}
        heads = {('h', B.id, k) for k in ren}
        nfacts = S.facts
        hs = {a for k, l in list(vals.items()) for a in l.t if a[0] == 'h' and a[1] == B.id}
        hs |= {a for k, l in list(mem.items()) for a in l.t if a[0] == 'h' and a[1] == B.id}
        for k, (lo, hi, ex) in of.items():
            def val(st, l):
                return st
            # interval of the same expression on the new path
            l2 = Lin(0, dict(k))
            sub = Lin(0)
            for a, c in l2.t.items():
                if a in hs:
                    x = S.vals.get(a[2]) if not isinstance(a[2], tuple) else S.mem.get(a[2])
                    if x is None or not isinstance(x, Lin):
                        sub = None
                        break
                    sub = sub + x.scale(c)
                else:
                    sub = sub + Lin(0, {a: c})
            if sub is None or any(self.deep(a, lambda z: z in heads) for a, _ in k):
                continue
            l3, h3, e3 = S.rng(sub)
            nl, nh = (lo if l3 >= lo else -INF), (hi if h3 <= hi else INF)
            ne = frozenset(e for e in ex if e in e3 or e < l3 or e > h3)
            if (nl, nh, ne) != (-INF, INF, frozenset()):
                facts[k] = (nl, nh, ne)
        # facts about newly generalised symbols that hold on both paths
        for h in heads:
            a = ov.get(h[2]) if not isinstance(h[2], tuple) else om.get(h[2])
            b = S.vals.get(h[2]) if not isinstance(h[2], tuple) else S.mem.get(h[2])
            if isinstance(a, Lin) and isinstance(b, Lin):
                oS = St(self, ov, om, of, None, None)
                l1, h1, e1 = oS.rng(a)
                l2, h2, e2 = S.rng(b)
                # widen to 0 / 1 bounds only
                lo = -INF
                for z in (1, 0):
                    if l1 >= z and l2 >= z:
                        lo = z
                        break
                ex = frozenset(z for z in (0, -1) if (z in e1 or l1 > z or h1 < z) and (z in e2 or l2 > z or h2 < z))
                if lo != -INF or ex:
                    s2 = St(self, {}, {}, facts, None, None)
                    s2.add(atom(h), lo=lo)
                    for z in ex:
                        s2.add(atom(h), ne=z)
        dirty = od | S.dirty
        if vals == ov and mem == om and facts == of and gen == og and dirty == od:
            return None
        self.hstate[key] = (dict(vals), dict(mem), dict(facts), n + 1, gen, dirty)
        if n > 60:
            raise Stop('no fixed point in ' + self.fn.short())
        S.vals, S.mem, S.facts, S.gen, S.dirty = vals, mem, facts, gen, dirty
        return S
