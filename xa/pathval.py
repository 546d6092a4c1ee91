"""Values along a path: normal forms and byte lanes in which every phi outside a
loop header and every decided select has been replaced by what it is on the path."""
from .ir import operands, addr, mem_ptr
from .lin import Linear, Lin, lanes as plain_lanes
from .sim import simulate, const_of, evaluate, cint, width, val_width, prep


def loop_headers(fn):
    r = getattr(fn, '_loophdr', None)
    if r is None:
        r = {B for B in fn.blocks if any(fn.dominates(B, p) for p in B.preds)}
        fn._loophdr = r
    return r


def slice_phis(fn, roots, through_load=False):
    """phis outside loop headers that the values in roots are computed from"""
    seen, st, out = set(), list(roots), set()
    hdr = loop_headers(fn)
    while st:
        v = st.pop()
        if not isinstance(v, int) or v in seen:
            continue
        seen.add(v)
        I = fn.inst.get(v)
        if I is None:
            continue
        if I.op == 'phi':
            if I.bb not in hdr:
                out.add(v)
            st += [x for x, _ in I.d['in']]
            continue
        if I.op == 'load' and not through_load or I.is_call and not (I.callee or '').startswith('llvm.u'):
            continue
        st += operands(I)
    return out, seen


class Val:
    """resolver for one path prefix: pm maps phi -> value on the path"""

    def __init__(self, L, pm, env):
        self.L = L
        self.fn = L.fn
        self.pm = pm
        self.env = env
        self.memo = {}

    def res(self, v):
        """follow phis and decided selects"""
        n = 0
        while isinstance(v, int) and n < 60:
            n += 1
            if v in self.pm:
                v = self.pm[v]
                continue
            I = self.fn.inst.get(v)
            if I is not None and I.op == 'select':
                c = self.cond(I.a[0])
                if c is not None:
                    v = I.a[1] if c & 1 else I.a[2]
                    continue
            if I is not None and I.op in ('freeze', 'bitcast'):
                v = I.a[0]
                continue
            break
        return v

    def cond(self, c):
        k = const_of(self.fn, self.env, c)
        if k is not None:
            return k
        if isinstance(c, int):
            I = self.fn.inst.get(c)
            if I is not None:
                k = evaluate(self.fn, self.env, I)
                if k is None and I.op == 'icmp':
                    k = self.icmp(I)
                elif k is None and I.op == 'xor' and width(I.ty) == 1 and cint(I.a[1]) is not None:
                    x = self.cond(I.a[0])
                    return None if x is None else (x ^ cint(I.a[1])) & 1
                return k
        return None

    def icmp(self, I):
        return None

    def lin(self, v):
        v = self.res(v)
        if not isinstance(v, int):
            return self.L.lin(v)
        if v in self.memo:
            return self.memo[v]
        sub = _PL(self)
        r = sub.lin(v)
        self.memo[v] = r
        return r

    def lanes(self, v, n):
        return plain_lanes(_Shim(self), v, n) if False else lanes_r(self, v, n)


class _PL(Linear):
    def __init__(self, V):
        self.__dict__.update(V.L.__dict__)
        self.memo = {}
        self._active = set()
        self.V = V

    def lin(self, v):
        return Linear.lin(self, self.V.res(v))

    def _lin(self, v):
        h = self.V.L.__dict__.get('hook')
        if h:
            r = h(self.V, v)
            if r is not None:
                return r
        return Linear._lin(self, v)


def lanes_r(V, v, n):
    """lanes() with path resolution"""
    fn = V.fn
    v = V.res(v)
    if isinstance(v, dict):
        return plain_lanes(fn, v, n)
    I = fn.inst.get(v)
    if I is None:
        return [(v, i) for i in range(n)]
    op = I.op
    if op in ('or', 'add', 'xor'):
        a, b = lanes_r(V, I.a[0], n), lanes_r(V, I.a[1], n)
        r = []
        for x, y in zip(a, b):
            if x == ('c', 0):
                r.append(y)
            elif y == ('c', 0):
                r.append(x)
            else:
                return [(v, i) for i in range(n)]
        return r
    c = cint(I.a[1]) if len(I.a) > 1 else None
    if op == 'shl' and c is not None and c % 8 == 0:
        return ([('c', 0)] * (c // 8) + lanes_r(V, I.a[0], n))[:n]
    if op == 'lshr' and c is not None and c % 8 == 0:
        w = width(I.ty) // 8
        return (lanes_r(V, I.a[0], w)[c // 8:] + [('c', 0)] * n)[:n]
    if op == 'and' and c is not None:
        m = c & ((1 << (8 * n)) - 1)
        a = lanes_r(V, I.a[0], n)
        r = []
        for i in range(n):
            b = (m >> (8 * i)) & 255
            if b == 255:
                r.append(a[i])
            elif b == 0:
                r.append(('c', 0))
            else:
                return [(v, j) for j in range(n)]
        return r
    if op == 'zext':
        w = val_width(fn, I.a[0])
        if w and w % 8 == 0:
            return (lanes_r(V, I.a[0], w // 8) + [('c', 0)] * n)[:n]
    if op == 'sext':
        w = val_width(fn, I.a[0])
        if w and w % 8 == 0:
            k = const_of(fn, V.env, V.res(I.a[0]))
            if k is not None:
                return plain_lanes(fn, {'k': 'i', 'v': k}, n)
    if op == 'trunc':
        w = val_width(fn, I.a[0])
        if w and w % 8 == 0:
            return lanes_r(V, I.a[0], w // 8)[:n]
    if op in ('ptrtoint', 'inttoptr', 'freeze', 'bitcast'):
        return lanes_r(V, I.a[0], n)
    k = const_of(fn, V.env, v)
    if k is not None:
        return plain_lanes(fn, {'k': 'i', 'v': k}, n)
    return [(v, i) for i in range(n)]


def phi_edges(fn, phis):
    """(pred block, block) -> [(phi, incoming)]"""
    m = {}
    for p in phis:
        I = fn.inst[p]
        for x, b in I.d['in']:
            m.setdefault((b, I.bb.id), []).append((p, x))
    return m


def pm_edge(edges, pm, B, S):
    """pm after the edge; pm is a frozenset of (phi, value-key)"""
    ups = edges.get((B.id, S.id))
    if not ups:
        return pm
    d = dict(pm)
    new = {}
    for p, x in ups:
        n = 0
        while isinstance(x, int) and n < 50:
            n += 1
            if x in d:
                x = unkey(d[x])
                continue
            # a select decided by the branch just taken
            I = B.fn.inst.get(x)
            t = B.term
            if I is not None and I.op == 'select' and t.op == 'br' and len(t.d['succ']) == 2 and \
                    t.a[0] == I.a[0] and t.d['succ'][0] != t.d['succ'][1]:
                x = I.a[1] if t.d['succ'][0] == S.id else I.a[2]
                continue
            break
        new[p] = key(x)
    d.update(new)
    return frozenset(d.items())


def key(x):
    if isinstance(x, int):
        return x
    import json
    return json.dumps(x, sort_keys=True)


def unkey(k):
    if isinstance(k, int):
        return k
    import json
    return json.loads(k)


def pm_dict(pm):
    return {p: unkey(k) for p, k in pm}
