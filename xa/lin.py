"""Linear normal forms of SSA values and byte-lane decomposition of stored words.

lin(fn, v) is (c, {atom: k}): v == c + sum(k*atom) modulo 2^64.  Two values with
the same normal form are equal on every execution.  Nothing is evaluated: this is
value numbering, extended with pointer arithmetic and alignment rounding."""
from .ir import addr, operands, mem_ptr, fieldname
from .sim import cint, width, val_width

M64 = (1 << 64) - 1


def sgn(c):
    c &= M64
    return c - (1 << 64) if c >> 63 else c


class Lin:
    __slots__ = ('c', 't', '_k')

    def __init__(self, c=0, t=None):
        self.c = sgn(c)
        self.t = {a: sgn(k) for a, k in (t or {}).items() if k & M64}
        self._k = None

    def __add__(self, o):
        t = dict(self.t)
        for a, k in o.t.items():
            t[a] = t.get(a, 0) + k
        return Lin(self.c + o.c, t)

    def __sub__(self, o):
        return self + o.scale(-1)

    def scale(self, k):
        return Lin(self.c * k, {a: x * k for a, x in self.t.items()})

    def plus(self, n):
        return Lin(self.c + n, self.t)

    def key(self):
        if self._k is None:
            self._k = (self.c, frozenset(self.t.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def const(self):
        return self.c if not self.t else None

    def single(self):
        """the atom if self is exactly one atom"""
        if self.c == 0 and len(self.t) == 1:
            (a, k), = self.t.items()
            if k == 1:
                return a
        return None

    def __repr__(self):
        s = [str(self.c)] if self.c or not self.t else []
        for a, k in sorted(self.t.items(), key=lambda x: str(x[0])):
            s.append(('%d*' % k if k != 1 else '') + fmt_atom(a))
        return ' + '.join(s)


def fmt_atom(a):
    if a[0] == 'v':
        return '%%%d' % a[1]
    if a[0] == 'arg':
        return '%%a%d' % a[1]
    if a[0] == 'fld':
        return a[1] + ('' if len(a) < 3 else '#%s' % (a[2],))
    if a[0] == 'align':
        return 'align%d(%r)' % (a[1], Lin(a[2][0], dict(a[2][1])))
    if a[0] == 'and':
        return '(%r & %d)' % (Lin(a[1][0], dict(a[1][1])), a[2])
    return str(a)


class Linear:
    """normal forms for one function; `private` says which fields only the
    executing thread writes (so that a re-load yields the same value as long as
    this function does not store to the field in between)"""

    def __init__(self, fn, private=lambda name: False, subst=None, names=fieldname, argmem=False):
        self.argmem = argmem
        self._argst = None
        self.fn = fn
        self.private = private
        self.names = names
        self.memo = {}
        self.subst = subst or {}
        self._stores = None
        self._active = set()

    def stores(self):
        if self._stores is None:
            self._stores = {}
            for I in self.fn.all():
                if I.op in ('store', 'atomicrmw', 'cmpxchg'):
                    n = self.names(self.fn, mem_ptr(I), I)
                    if n:
                        self._stores.setdefault(n, []).append(I)
        return self._stores

    def argstores(self):
        if self._argst is None:
            self._argst = set()
            for I in self.fn.all():
                ps = [mem_ptr(I)] if I.op in ('store', 'atomicrmw', 'cmpxchg') else I.a if I.is_call else []
                for p in ps:
                    if p is not None:
                        a = addr(self.fn, p)
                        if isinstance(a.root, int):
                            if I.is_call and (I.callee or '').startswith('llvm.mem') and p is not I.a[0]:
                                continue
                            if I.is_call and (I.callee or '').startswith('llvm.lifetime'):
                                continue
                            self._argst.add(a.root)
        return self._argst

    def stored_before(self, L, n):
        for S in self.stores().get(n, ()):
            if S.bb is L.bb and S.idx < L.idx:
                return True
            if L.bb in self.fn.reachable(S.bb.succs):
                return True
        return False

    def lin(self, v):
        if isinstance(v, dict):
            c = cint(v)
            if c is not None:
                return Lin(c)
            a = addr(self.fn, v)
            return Lin(a.off, {('g', str(a.root)): 1})
        if v in self.memo:
            return self.memo[v]
        if v in self._active:
            return Lin(0, {('v', v): 1})
        self._active.add(v)
        r = self._lin(v)
        self._active.discard(v)
        self.memo[v] = r
        return r

    def atom(self, v):
        return Lin(0, {('v', v): 1})

    def _lin(self, v):
        fn = self.fn
        if v in self.subst:
            return self.subst[v]
        if v in fn.argidx:
            return Lin(0, {('arg', fn.argidx[v]): 1})
        I = fn.inst.get(v)
        if I is None:
            return self.atom(v)
        op = I.op
        if op == 'getelementptr' and 'off' in I.d:
            r = self.lin(I.a[0]).plus(I.d['off'])
            for x, s in I.d['var']:
                r = r + self.lin(x).scale(s)
            return r
        w = width(I.ty)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            if op in ('bitcast', 'freeze') or w == 64 or I.ty == 'ptr':
                return self.lin(I.a[0])
        if op in ('add', 'sub') and w == 64:
            a, b = self.lin(I.a[0]), self.lin(I.a[1])
            return a + b if op == 'add' else a - b
        if op == 'or' and w == 64 and cint(I.a[1]) is not None:
            # or of known-clear low bits is an addition; recognise align(x)|c
            a = self.lin(I.a[0])
            s = a.single()
            c = cint(I.a[1])
            if s and s[0] == 'align' and 0 <= c < s[1]:
                return a.plus(c)
        if op == 'mul' and w == 64 and cint(I.a[1]) is not None:
            return self.lin(I.a[0]).scale(cint(I.a[1]))
        if op == 'shl' and w == 64 and cint(I.a[1]) is not None:
            return self.lin(I.a[0]).scale(1 << cint(I.a[1]))
        if op == 'and' and w == 64 and cint(I.a[1]) is not None:
            c = sgn(cint(I.a[1]))
            x = self.lin(I.a[0])
            if c < 0 and (-c & (-c - 1)) == 0:
                n = -c
                return align(x.plus(-(n - 1)), n)
            return Lin(0, {('and', x.key(), c): 1})
        if op in ('zext', 'sext'):
            if op == 'zext':
                return Lin(0, {('zext', val_width(fn, I.a[0]), self.lin(I.a[0]).key() if isinstance(I.a[0], int) else str(I.a[0])): 1})
        if op == 'trunc':
            x = self.lin(I.a[0])
            return Lin(0, {('trunc', w, x.key()): 1})
        if op == 'load' and self.argmem:
            a = addr(fn, I.a[0])
            if isinstance(a.root, int) and fn.argidx.get(a.root, 0) > 0 and not a.var and not I.d.get('vol') and not I.d.get('ord') and a.root not in self.argstores():
                return Lin(0, {('argmem', fn.argidx[a.root], a.off, I.d.get('sz')): 1})
        if op == 'load':
            n = self.names(fn, I.a[0], I)
            if n and self.private(n):
                if not self.stored_before(I, n):
                    return Lin(0, {('fld', n): 1})
                return Lin(0, {('fld', n, I.id): 1})
        if op == 'phi':
            ins = {self.lin(x).key() for x, _ in I.d['in'] if x != v}
            if len(ins) == 1 and not self._mentions_active(ins):
                k = ins.pop()
                return Lin(k[0], dict(k[1]))
        if op == 'select':
            a, b = self.lin(I.a[1]), self.lin(I.a[2])
            if a == b:
                return a
        if I.is_call and I.callee:
            n = I.callee
            if n.startswith('llvm.umin') or n.startswith('llvm.umax') or n.startswith('llvm.smin') or n.startswith('llvm.smax'):
                ks = tuple(sorted((self.lin(x).key() for x in I.a), key=str))
                return Lin(0, {(n.split('.')[1], ks): 1})
        return self.atom(v)

    def _mentions_active(self, ins):
        for k in ins:
            for a, _ in k[1]:
                if a[0] == 'v' and a[1] in self._active:
                    return True
        return False


def lower(l):
    """a constant l is never below (rounding up adds 0..n-1), or None"""
    for _ in range(8):
        for a, k in l.t.items():
            if a[0] == 'align' and k in (1, -1):
                x = Lin(a[2][0], dict(a[2][1]))
                l = l - Lin(0, {a: k})
                l = l + (x if k == 1 else x.plus(a[1] - 1).scale(-1))
                break
        else:
            break
    return l.const()


def align(x, n):
    """normal form of rounding x up to a multiple of n"""
    # align(align(y) + c) with n | c and same n
    return Lin(0, {('align', n, x.key()): 1})


def leaves(fn, v, seen=None):
    """non-phi, non-select values v may stand for"""
    if seen is None:
        seen = set()
    if isinstance(v, dict):
        return [v]
    if v in seen:
        return []
    seen.add(v)
    I = fn.inst.get(v)
    if I is not None and I.op == 'phi':
        r = []
        for x, _ in I.d['in']:
            r += leaves(fn, x, seen)
        return r
    if I is not None and I.op == 'select':
        return leaves(fn, I.a[1], seen) + leaves(fn, I.a[2], seen)
    if I is not None and I.op in ('freeze', 'bitcast'):
        return leaves(fn, I.a[0], seen)
    return [v]


def lanes(fn, v, n):
    """decompose an n-byte stored value into byte lanes: list of n entries, each
    ('c', byte) or (value id, byte index) or None"""
    if isinstance(v, dict):
        c = cint(v)
        if c is not None:
            c &= (1 << (8 * n)) - 1
            return [('c', (c >> (8 * i)) & 255) for i in range(n)]
        if v.get('k') in ('g', 'fn', 'goff'):
            return [('sym', str(v), i) for i in range(n)]
        return [None] * n
    I = fn.inst.get(v)
    if I is None:
        return [(v, i) for i in range(n)]
    op = I.op
    if op == 'or' or op == 'add' or op == 'xor':
        a, b = lanes(fn, I.a[0], n), lanes(fn, I.a[1], n)
        r = []
        for x, y in zip(a, b):
            if x == ('c', 0):
                r.append(y)
            elif y == ('c', 0):
                r.append(x)
            else:
                return [(v, i) for i in range(n)]
        return r
    if op == 'shl' and cint(I.a[1]) is not None and cint(I.a[1]) % 8 == 0:
        k = cint(I.a[1]) // 8
        return ([('c', 0)] * k + lanes(fn, I.a[0], n))[:n]
    if op == 'lshr' and cint(I.a[1]) is not None and cint(I.a[1]) % 8 == 0:
        k = cint(I.a[1]) // 8
        w = width(I.ty) // 8
        return (lanes(fn, I.a[0], w)[k:] + [('c', 0)] * n)[:n]
    if op == 'and' and cint(I.a[1]) is not None:
        m = cint(I.a[1]) & ((1 << (8 * n)) - 1)
        a = lanes(fn, I.a[0], n)
        r = []
        for i in range(n):
            b = (m >> (8 * i)) & 255
            if b == 255:
                r.append(a[i])
            elif b == 0:
                r.append(('c', 0))
            else:
                return [(v, j) for j in range(n)]
        return r
    if op == 'zext':
        w = val_width(fn, I.a[0])
        if w and w % 8 == 0:
            return (lanes(fn, I.a[0], w // 8) + [('c', 0)] * n)[:n]
        if w == 1:
            return ([(v, 0)] + [('c', 0)] * n)[:n]
    if op == 'trunc':
        w = val_width(fn, I.a[0])
        if w and w % 8 == 0:
            return lanes(fn, I.a[0], w // 8)[:n]
    if op in ('ptrtoint', 'inttoptr', 'freeze', 'bitcast'):
        return lanes(fn, I.a[0], n)
    return [(v, i) for i in range(n)]
