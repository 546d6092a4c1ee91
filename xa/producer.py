"""Analysis of code that writes records into a sink's queue."""
import re
from .ir import addr, mem_ptr, fieldname, operands
from .lin import Linear, Lin, leaves, lanes
from .sim import simulate, cint, const_of, width, val_width, pathstr

ROLES = {
    'buf_.nwritten_._M_i': 'nwritten',
    'buf_.wrbase_': 'wrbase',
    'buf_.wrcapacity_': 'wrcapacity',
    'buf_.wrnread_plus_capacity_': 'wrnread',
    'buf_.wrnwritten_': 'wrnwritten',
    'buf_.nread_plus_capacity_._M_i': 'nread',
    'buf_.dropped_count_._M_i': 'dropped',
    'buf_.m_.m_.mem_': 'mem',
    'buf_.m_.m_.length_': 'memlen',
}
PRIVATE = {'wrbase', 'wrcapacity', 'wrnwritten', 'mem', 'memlen'}
ACQ = {'acquire', 'acq_rel', 'seq_cst'}
REL = {'release', 'acq_rel', 'seq_cst'}


def role_name(n):
    if not n:
        return None
    i = n.find('buf_.')
    if i < 0:
        return None
    return ROLES.get(n[i:])


def role(fn, ptr, I=None):
    key = ('role', ptr if isinstance(ptr, int) else None)
    c = fn.__dict__.setdefault('_rolecache', {})
    if isinstance(ptr, int) and ptr in c:
        return c[ptr]
    r = role_name(fieldname(fn, ptr, I))
    if isinstance(ptr, int) and I is None:
        c[ptr] = r
    return r


def irole(I):
    """queue field accessed by a load/store/rmw"""
    p = mem_ptr(I)
    if p is None:
        return None
    c = I.fn.__dict__.setdefault('_irole', {})
    if I.id not in c:
        c[I.id] = role(I.fn, p, I)
    return c[I.id]


def capacity(mod):
    for n, t, _, _ in [(x[0], x[2], 0, 0) for x in mod.classes['_ZTSN3xtr4sinkE']['m']]:
        m = re.search(r'synchronized_ring_bufferILm(\d+)E', t)
        if m:
            return int(m.group(1))
    return None


def strength(I):
    return I.d.get('ord')


class Producer:
    def __init__(self, fn):
        self.fn = fn
        self.L = Linear(fn, private=lambda n: role_name(n) in PRIVATE,
                        names=lambda f, p, I=None: fieldname(f, p, I), argmem=True)
        self.cap = capacity(fn.mod)
        self._ring = {}
        self.writes = []       # (inst, addr value, size or None, kind)
        self.publish = []
        self.wr = []
        for I in fn.all():
            r = irole(I)
            if I.op == 'store' and r == 'nwritten' or I.op in ('atomicrmw', 'cmpxchg') and r == 'nwritten':
                self.publish.append(I)
            if I.op == 'store' and r == 'wrnwritten':
                self.wr.append(I)
            if I.op == 'store' and self.ring(I.a[1]):
                self.writes.append((I, I.a[1], I.d['sz'], 'store'))
            elif I.is_call and I.callee and re.match(r'llvm\.mem(cpy|move|set)|mem(cpy|move|set)$', I.callee):
                if self.ring(I.a[0]):
                    self.writes.append((I, I.a[0], I.a[2], 'mem'))
            elif I.is_call and not (I.callee or '').startswith('llvm.'):
                for k, x in enumerate(I.a):
                    if isinstance(x, int) and self.ring(x):
                        self.writes.append((I, x, None, 'call'))
        self.writeset = {w[0].id: w for w in self.writes}

    def ring(self, v, seen=None):
        """v points into the queue memory"""
        if not isinstance(v, int):
            return False
        if v in self._ring:
            return self._ring[v]
        if seen is None:
            seen = set()
        if v in seen:
            return False
        seen.add(v)
        I = self.fn.inst.get(v)
        r = False
        if I is not None:
            if I.op in ('getelementptr', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
                r = self.ring(I.a[0], seen)
            elif I.op in ('add', 'sub', 'and', 'or') and width(I.ty) == 64:
                r = self.ring(I.a[0], seen) and not (I.op == 'sub' and self.ring(I.a[1], seen))
            elif I.op == 'phi':
                r = any(self.ring(x, seen) for x, _ in I.d['in'])
            elif I.op == 'select':
                r = self.ring(I.a[1], seen) or self.ring(I.a[2], seen)
            elif I.op == 'load':
                r = irole(I) == 'wrbase'
            elif I.is_call and I.callee and I.callee.startswith('llvm.ptrmask'):
                r = self.ring(I.a[0], seen)
        self._ring[v] = r
        return r

    # -- pieces of the normal form -------------------------------------------
    def W(self):
        """the writer's position at entry"""
        return Lin(0, {('fld', self._fname('wrnwritten')): 1})

    def _fname(self, r):
        for I in self.fn.all():
            if I.op == 'load' and irole(I) == r:
                return fieldname(self.fn, I.a[0], I)
        return None

    def base(self):
        wb, ww = self._fname('wrbase'), self._fname('wrnwritten')
        if not wb or not ww:
            return None
        return Lin(0, {('fld', wb): 1, ('and', Lin(0, {('fld', ww): 1}).key(), self.cap - 1): 1})

    def is_space(self, lin):
        """lin is (a limit the reader granted) - (the writer's position)"""
        t = dict(lin.t)
        w = self.W().single()
        if t.get(w) != -1:
            return False
        del t[w]
        if lin.c != 0 or len(t) != 1:
            return False
        (a, k), = t.items()
        if k != 1:
            return False
        return self.is_limit(a)

    def is_limit(self, a, seen=None):
        if a[0] == 'v':
            I = self.fn.inst.get(a[1])
            if I is not None and I.op == 'load' and irole(I) in ('nread', 'wrnread'):
                return True
            if I is not None and I.op in ('phi', 'select'):
                seen = seen or set()
                if a[1] in seen:
                    return True
                seen.add(a[1])
                xs = [x for x, _ in I.d['in']] if I.op == 'phi' else I.a[1:]
                return all(self._limit_lin(self.L.lin(x), seen) for x in xs)
        return False

    def _limit_lin(self, l, seen):
        a = l.single()
        return a is not None and self.is_limit(a, seen)

    def limit_of(self, lin, seen=None):
        """If lin >= 0 means 'queue bytes up to X are granted', X as an offset
        from the record's start; else None.  lin has the shape
        space - K  or  end - P  where space/end are granted limits."""
        B = self.base()
        if B is None:
            return None
        for a, k in lin.t.items():
            if k != 1:
                continue
            one = Lin(0, {a: 1})
            if self.is_limit(a):
                # (limit - W) - K
                K = (one - self.W()) - lin
                return K
            if a[0] == 'v':
                I = self.fn.inst.get(a[1])
                if I is not None and I.op in ('phi', 'select'):
                    kind = self.valid_phi(a[1])
                    if kind == 'end':
                        return one - lin - B
                    if kind == 'space':
                        return one - lin
        # end written out: B + limit - W - P: handled by the first case since the
        # limit atom is in it; remove B
        return None

    def equal_at(self, x, B):
        """values a dominating branch has compared equal to x"""
        fn = self.fn
        out = []
        D = B
        fn.dominates(B, B)
        idom = fn._dom[0]
        n = 0
        while D in idom and n < 500:
            n += 1
            P = idom[D]
            if P is D:
                break
            t = P.term
            if t.op == 'br' and len(t.d['succ']) == 2 and t.a and isinstance(t.a[0], int):
                c = fn.inst.get(t.a[0])
                if c is not None and c.op == 'icmp' and c.d['pred'] in ('eq', 'ne') and x in c.a:
                    S = fn.bb[t.d['succ'][0 if c.d['pred'] == 'eq' else 1]]
                    if S.preds == [P] and fn.dominates(S, B):
                        out.append(c.a[1] if c.a[0] == x else c.a[0])
            D = P
        return out

    def _phi_space(self, l, seen):
        a = l.single()
        J = self.fn.inst.get(a[1]) if a and a[0] == 'v' else None
        return J is not None and J.op in ('phi', 'select') and self.valid_phi(a[1], seen) == 'space'

    def valid_phi(self, v, seen=None):
        """phi of granted ends / granted sizes"""
        seen = seen if seen is not None else {}
        if v in seen:
            return seen[v]
        I = self.fn.inst.get(v)
        seen[v] = '?'
        kinds = set()
        xs = I.d['in'] if I.op == 'phi' else [(x, None) for x in I.a[1:]]
        for x, b in xs:
            l = self.L.lin(x)
            if b is not None and isinstance(x, int):
                for y in self.equal_at(x, self.fn.bb[b]):
                    ly = self.L.lin(y)
                    if self.is_space(ly) or self.is_space(ly - self.base()) if self.base() is not None else False:
                        l = ly
                        break
            e = l - self.base() if self.base() is not None else l
            if self.is_space(l):
                kinds.add('space')
            elif self.is_space(e) or self._phi_space(e, seen):
                kinds.add('end')
            else:
                a = l.single()
                J = self.fn.inst.get(a[1]) if a and a[0] == 'v' else None
                if J is not None and J.op in ('phi', 'select'):
                    k = self.valid_phi(a[1], seen)
                    if k is None:
                        kinds.add(None)
                    elif k != '?':
                        kinds.add(k)
                else:
                    kinds.add(None)
        r = kinds.pop() if len(kinds) == 1 else None
        seen[v] = r
        return r

    def granted(self, lin, strict_ne=False):
        """offset granted by the fact lin >= 0, relative to the record start"""
        K = self.limit_of(lin)
        if K is None:
            return None
        # K may still contain B when an address was compared: normalise
        B = self.base()
        return K


def facts_of_edge(P, cond, pol):
    """linear facts a branch on cond == pol establishes: list of ('ge', Lin) or
    ('ne', Lin)"""
    fn = P.fn
    if not isinstance(cond, int):
        return []
    I = fn.inst.get(cond)
    if I is None:
        return []
    if I.op == 'xor' and width(I.ty) == 1 and cint(I.a[1]) is not None:
        return facts_of_edge(P, I.a[0], pol ^ (cint(I.a[1]) & 1))
    if I.op == 'freeze':
        return facts_of_edge(P, I.a[0], pol)
    if width(I.ty) == 1 and (I.op == 'and' and pol or I.op == 'or' and not pol):
        return facts_of_edge(P, I.a[0], pol) + facts_of_edge(P, I.a[1], pol)
    if I.op == 'select' and width(I.ty) == 1:
        t, f = cint(I.a[1]), cint(I.a[2])
        if f == 0 and pol:
            return facts_of_edge(P, I.a[0], 1) + facts_of_edge(P, I.a[1], 1)
        if t is not None and t & 1 and not pol:
            return facts_of_edge(P, I.a[0], 0) + facts_of_edge(P, I.a[2], 0)
        return []
    if I.op != 'icmp':
        return []
    a, b = P.L.lin(I.a[0]), P.L.lin(I.a[1])
    p = I.d['pred']
    if not pol:
        p = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
             'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[p]
    d = a - b
    if p == 'eq':
        return [('ge', d), ('ge', d.scale(-1)), ('eq', d)]
    if p == 'ne':
        return [('ne', d)]
    if p[1:] == 'ge':
        return [('ge', d)]
    if p[1:] == 'gt':
        return [('ge', d.plus(-1))]
    if p[1:] == 'le':
        return [('ge', d.scale(-1))]
    return [('ge', d.scale(-1).plus(-1))]
