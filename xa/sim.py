"""Property simulation: the product of a function's CFG with a finite automaton,
made path sensitive by the facts branches establish about SSA values.

A fact environment maps an SSA value to ('=', c) or ('!', frozenset(c)).  Facts
are learnt from branch/switch edges and from phi operands, used to prune edges,
and dropped when the value is redefined (loop) or no longer live.  Joins are the
union of (block, env, state) triples: the result over-approximates the feasible
paths, so "no violation" is sound with respect to the automaton; a reported path
is one on which no branch condition contradicts another.
"""
from .ir import operands


class Stop(Exception):
    pass


def cint(v):
    if isinstance(v, dict):
        if v.get('k') == 'i':
            return int(v['v']) if v.get('v') is not None else int(v['s'])
        if v.get('k') == 'null':
            return 0
    return None


def width(ty):
    if ty == 'ptr':
        return 64
    if ty and ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    return None


def norm(c, w):
    if w is None:
        return c
    c &= (1 << w) - 1
    if w > 1 and c >= 1 << (w - 1):
        c -= 1 << w
    return c


def uns(c, w):
    return c & ((1 << w) - 1) if w else c


def val_width(fn, v):
    if isinstance(v, int):
        if v in fn.argidx:
            return width(fn.args[fn.argidx[v]]['ty'])
        I = fn.inst.get(v)
        return width(I.ty) if I else None
    if isinstance(v, dict):
        if v.get('k') == 'null':
            return 64
        return v.get('w') or width(v.get('ty'))
    return None


class Facts:
    """immutable fact set"""
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = d
        self._h = hash(frozenset(d.items()))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.d == o.d


EMPTY = Facts({})
NON_FACT = {'null'}


def const_of(fn, env, v):
    c = cint(v)
    if c is not None:
        return norm(c, val_width(fn, v))
    if isinstance(v, int):
        f = env.get(v)
        if f and f[0] == '=':
            return f[1]
    return None


def differs(fn, env, a, b):
    """True when a != b is known"""
    ca, cb = const_of(fn, env, a), const_of(fn, env, b)
    if ca is not None and cb is not None:
        return ca != cb
    for x, c in ((a, cb), (b, ca)):
        if c is not None and isinstance(x, int):
            f = env.get(x)
            if f and f[0] == '!' and c in f[1]:
                return True
            I = fn.inst.get(x)
            # address of a stack object, global or vtable slot is never null
            if c == 0 and I is not None and I.op == 'alloca':
                return True
    return False


SWAP = {'eq': 'eq', 'ne': 'ne', 'ugt': 'ult', 'uge': 'ule', 'ult': 'ugt', 'ule': 'uge',
        'sgt': 'slt', 'sge': 'sle', 'slt': 'sgt', 'sle': 'sge'}


def pair_key(p, a, b):
    """canonical (relation, a, b, polarity) of a comparison of two SSA values"""
    if p == 'ne':
        x, y = sorted((a, b))
        return ('eq', x, y), 0
    if p == 'eq':
        x, y = sorted((a, b))
        return ('eq', x, y), 1
    if p[1:] in ('gt', 'le'):
        # a > b  ==  b < a ;  a <= b == !(b < a)
        return (p[0] + 'lt', b, a), 1 if p[1:] == 'gt' else 0
    return (p[0] + 'lt', a, b), 1 if p[1:] == 'lt' else 0


def pair_eval(env, p, a, b):
    if not (isinstance(a, int) and isinstance(b, int)):
        return None
    k, pol = pair_key(p, a, b)
    f = env.get(k)
    if f is not None:
        return int(f[1] == pol)
    if k[0] == 'eq':
        for q in ('ult', 'slt'):
            for x, y in ((a, b), (b, a)):
                f = env.get((q, x, y))
                if f is not None and f[1] == 1:
                    return int(0 == pol)
    else:
        f = env.get(('eq',) + tuple(sorted((a, b))))
        if f is not None and f[1] == 1:
            return int(0 == pol)
        f = env.get((k[0], k[2], k[1]))
        if f is not None and f[1] == 1:
            return int(0 == pol)
    return None


def evaluate(fn, env, I):
    """constant value of I under env, or None"""
    op = I.op
    if op == 'icmp':
        a, b = I.a
        p = I.d['pred']
        r = pair_eval(env, p, a, b)
        if r is not None:
            return r
        if p in ('eq', 'ne'):
            ca, cb = const_of(fn, env, a), const_of(fn, env, b)
            if ca is not None and cb is not None:
                return int((ca == cb) == (p == 'eq'))
            if differs(fn, env, a, b):
                return int(p == 'ne')
            if isinstance(a, int) and a == b:
                return int(p == 'eq')
            return None
        ca, cb = const_of(fn, env, a), const_of(fn, env, b)
        w = val_width(fn, a) or val_width(fn, b)
        if ca is not None and cb is not None and w:
            if p[0] == 'u':
                ca, cb = uns(ca, w), uns(cb, w)
            return int({'gt': ca > cb, 'ge': ca >= cb, 'lt': ca < cb, 'le': ca <= cb}[p[1:]])
        return None
    if op in ('and', 'or', 'xor', 'add', 'sub', 'mul'):
        w = width(I.ty)
        ca, cb = const_of(fn, env, I.a[0]), const_of(fn, env, I.a[1])
        if ca is not None and cb is not None:
            r = {'and': ca & cb, 'or': ca | cb, 'xor': ca ^ cb, 'add': ca + cb, 'sub': ca - cb, 'mul': ca * cb}[op]
            return norm(r, w) if w != 1 else r & 1
        if op == 'and' and (ca == 0 or cb == 0):
            return 0
        if op == 'or' and w == 1 and ((ca or 0) & 1 or (cb or 0) & 1):
            return 1
        return None
    if op in ('zext', 'sext', 'trunc', 'freeze', 'ptrtoint', 'inttoptr', 'bitcast'):
        c = const_of(fn, env, I.a[0])
        if c is None:
            return None
        if op == 'zext':
            c = uns(c, val_width(fn, I.a[0]))
            return c
        if op == 'sext' and val_width(fn, I.a[0]) == 1:
            return -1 if c else 0
        return norm(c, width(I.ty)) if width(I.ty) != 1 else c & 1
    if op == 'select':
        c = const_of(fn, env, I.a[0])
        if c is not None:
            return const_of(fn, env, I.a[1] if c & 1 else I.a[2])
        x, y = const_of(fn, env, I.a[1]), const_of(fn, env, I.a[2])
        return x if x is not None and x == y else None
    return None


def diffs(fn):
    """equality test -> subtractions of the same two values"""
    r = getattr(fn, '_diffs', None)
    if r is None:
        subs = {}
        for I in fn.all():
            if I.op == 'sub' and isinstance(I.a[0], int) and isinstance(I.a[1], int):
                subs.setdefault(frozenset(I.a), []).append(I.id)
        r = {}
        for I in fn.all():
            if I.op == 'icmp' and I.d['pred'] in ('eq', 'ne') and all(isinstance(x, int) for x in I.a):
                z = [x for x in subs.get(frozenset(I.a), ()) if fn.inst_dominates(fn.inst[x], I)]
                if z:
                    r[I.id] = z
        fn._diffs = r
    return r


def nonzero(fn):
    """values whose normal form is never below 1 (a size made of positive
    parts)"""
    r = getattr(fn, '_nonzero', None)
    if r is None:
        from .lin import Linear, lower
        from .producer import role_name, PRIVATE
        L = Linear(fn, private=lambda n: role_name(n) in PRIVATE)
        r = set()
        for I in fn.all():
            if I.op in ('sub', 'add') and width(I.ty) == 64:
                l = L.lin(I.id)
                if any(a[0] == 'align' for a in l.t):
                    b = lower(l)
                    if b is not None and b > 0:
                        r.add(I.id)
        fn._nonzero = r
    return r


def assume(fn, env, v, c, depth=0):
    """env with v == c added (mutates a copy); False if contradictory"""
    if isinstance(v, dict):
        k = cint(v)
        if k is None:
            return True
        w = val_width(fn, v)
        if w == 1:
            return (k & 1) == (c & 1)
        return norm(k, w) == c
    f = env.get(v)
    if f:
        if f[0] == '=':
            if f[1] != c:
                return False
        elif c in f[1]:
            return False
    env[v] = ('=', c)
    if c == 0:
        for k, f in env.items():
            if isinstance(k, tuple) and k[0] == 'ult':
                if f[1] == 1 and k[2] == v or f[1] == 0 and k[1] == v and k[2] in nonzero(fn):
                    return False
    I = fn.inst.get(v)
    if I is None or depth > 8:
        return True
    if I.op == 'icmp':
        a, b = I.a
        p = I.d['pred']
        if isinstance(a, int) and isinstance(b, int):
            r = pair_eval(env, p, a, b)
            if r is not None and r != (c & 1):
                return False
            k, pol = pair_key(p, a, b)
            pv = pol if c & 1 else 1 - pol
            env[k] = ('=', pv)
            if k[0] == 'ult':
                z = k[2] if pv else k[1] if k[2] in nonzero(fn) else None
                if z is not None and not exclude(fn, env, z, 0, depth + 1):
                    return False
        if p in ('eq', 'ne'):
            same = (p == 'eq') == bool(c & 1)
            for z in diffs(fn).get(I.id, ()):
                if not (assume(fn, env, z, 0, depth + 1) if same else exclude(fn, env, z, 0, depth + 1)):
                    return False
            for x, y in ((a, b), (b, a)):
                k = const_of(fn, env, y)
                if k is not None and isinstance(x, int):
                    if same:
                        if not assume(fn, env, x, k, depth + 1):
                            return False
                    else:
                        if not exclude(fn, env, x, k, depth + 1):
                            return False
        elif p == 'ugt' and cint(b) == 0 and isinstance(a, int):
            return exclude(fn, env, a, 0, depth + 1) if c & 1 else assume(fn, env, a, 0, depth + 1)
        elif p == 'ult' and cint(b) == 1 and isinstance(a, int):
            return assume(fn, env, a, 0, depth + 1) if c & 1 else exclude(fn, env, a, 0, depth + 1)
        elif p in ('ult', 'ugt', 'slt', 'sgt') and (c & 1):
            # strict order implies inequality with a constant bound
            for x, y in ((a, b), (b, a)):
                k = const_of(fn, env, y)
                if k is not None and isinstance(x, int):
                    if not exclude(fn, env, x, k, depth + 1):
                        return False
        # signed tests against zero exclude some constants
        if isinstance(a, int) and cint(b) is not None and p in ('sgt', 'slt', 'sge', 'sle'):
            k = norm(cint(b), val_width(fn, a))
            ex = []
            t = bool(c & 1)
            for z in (-1, 0, 1):
                ok = {'sgt': z > k, 'slt': z < k, 'sge': z >= k, 'sle': z <= k}[p]
                if ok != t:
                    ex.append(z)
            for z in ex:
                if not exclude(fn, env, a, z, depth + 1):
                    return False
    elif I.op == 'xor' and width(I.ty) == 1:
        k = cint(I.a[1])
        if k is not None:
            return assume(fn, env, I.a[0], (c ^ k) & 1, depth + 1)
    elif I.op == 'and' and width(I.ty) == 1 and c & 1:
        return assume(fn, env, I.a[0], 1, depth + 1) and assume(fn, env, I.a[1], 1, depth + 1)
    elif I.op == 'or' and width(I.ty) == 1 and not c & 1:
        return assume(fn, env, I.a[0], 0, depth + 1) and assume(fn, env, I.a[1], 0, depth + 1)
    elif I.op == 'select' and width(I.ty) == 1:
        t, fl = cint(I.a[1]), cint(I.a[2])
        if fl == 0 and c & 1:  # a && b
            return assume(fn, env, I.a[0], 1, depth + 1) and assume(fn, env, I.a[1], 1, depth + 1)
        if t is not None and t & 1 and not c & 1:  # a || b false
            return assume(fn, env, I.a[0], 0, depth + 1) and assume(fn, env, I.a[2], 0, depth + 1)
    elif I.op == 'freeze':
        return assume(fn, env, I.a[0], c, depth + 1)
    elif I.op == 'trunc' and width(I.ty) == 1 and c == 0:
        # bool loaded as i8: low bit clear
        x = I.a[0]
        X = fn.inst.get(x) if isinstance(x, int) else None
        if X is not None and X.op == 'load' and width(X.ty) == 8:
            return assume(fn, env, x, 0, depth + 1)
    elif I.op == 'trunc' and width(I.ty) == 1 and c & 1:
        x = I.a[0]
        if isinstance(x, int):
            return exclude(fn, env, x, 0, depth + 1)
    elif I.op in ('zext', 'sext'):
        w = val_width(fn, I.a[0])
        return assume(fn, env, I.a[0], (c & 1) if w == 1 else norm(c, w), depth + 1)
    elif I.op in ('ptrtoint', 'inttoptr'):
        return assume(fn, env, I.a[0], c, depth + 1)
    return True


def exclude(fn, env, v, c, depth=0):
    if not isinstance(v, int):
        k = const_of(fn, env, v)
        return k is None or k != c
    f = env.get(v)
    if f:
        if f[0] == '=':
            return f[1] != c
        s = f[1]
        if c not in s and len(s) < 8:
            env[v] = ('!', s | {c})
        return True
    if val_width(fn, v) == 1:
        return assume(fn, env, v, 1 - (c & 1), depth + 1)
    env[v] = ('!', frozenset([c]))
    I = fn.inst.get(v)
    if I is not None and depth < 8:
        if I.op in ('zext', 'sext', 'ptrtoint', 'inttoptr', 'freeze'):
            return exclude(fn, env, I.a[0], c, depth + 1)
    return True


class Prep:
    """per-function tables: tracked values and liveness"""

    def __init__(self, fn, more=()):
        self.fn = fn
        tr = set()
        work = []
        for B in fn.blocks:
            t = B.term
            if t.op in ('br', 'switch') and t.a and isinstance(t.a[0], int):
                work.append(t.a[0])
        while work:
            v = work.pop()
            if v in tr:
                continue
            tr.add(v)
            I = fn.inst.get(v)
            if I is None:
                continue
            work += diffs(fn).get(v, ())
            if I.op in ('icmp', 'and', 'or', 'xor', 'zext', 'sext', 'trunc', 'select', 'phi', 'freeze', 'add', 'sub', 'ptrtoint', 'inttoptr'):
                for x in operands(I):
                    if isinstance(x, int):
                        work.append(x)
        tr |= set(more)
        self.more = set(more)
        self.tracked = tr
        # liveness of tracked values at block entry
        use, dfn = {}, {}
        for B in fn.blocks:
            u, d = set(), set()
            for I in B.insts:
                if I.op == 'phi':
                    d.add(I.id)
                    continue
                for x in operands(I) + list(diffs(fn).get(I.id, ())):
                    if isinstance(x, int) and x in tr and x not in d:
                        u.add(x)
                d.add(I.id)
            use[B], dfn[B] = u, d
        live = {B: set() for B in fn.blocks}
        ch = True
        blocks = list(reversed(fn.blocks))
        while ch:
            ch = False
            for B in blocks:
                out = set()
                for S in B.succs:
                    out |= live[S]
                    for I in S.insts:
                        if I.op != 'phi':
                            break
                        for x, b in I.d['in']:
                            if b == B.id and isinstance(x, int) and x in tr:
                                out.add(x)
                n = use[B] | (out - dfn[B])
                # phis of B are live in if used inside
                if n != live[B]:
                    live[B] = n
                    ch = True
        self.live = live
        # a fact about an icmp is useful while the icmp is live; a fact about its
        # operand while the operand is live
        self.phis = {B: [I for I in B.insts if I.op == 'phi'] for B in fn.blocks}


def prep(fn):
    p = getattr(fn, '_prep', None)
    if p is None:
        p = fn._prep = Prep(fn)
    return p


def edge_env(fn, P, env, B, S, idx):
    """env after taking edge number idx (B -> S); None if infeasible"""
    t = B.term
    e = dict(env)
    if t.op == 'br' and len(t.a) >= 1 and len(t.d['succ']) == 2 and t.d['succ'][0] != t.d['succ'][1]:
        if not assume(fn, e, t.a[0], 1 if idx == 0 else 0):
            return None
    elif t.op == 'switch':
        v = t.a[0]
        cases = t.d['cases']
        mine = [c for c, b in cases if b == S.id]
        w = val_width(fn, v)
        if t.d['def'] == S.id:
            if not mine:
                for c, b in cases:
                    if not exclude(fn, e, v, norm(int(c), w)):
                        return None
        elif len(mine) == 1:
            if not assume(fn, e, v, norm(int(mine[0]), w)):
                return None
        else:
            k = const_of(fn, e, v)
            if k is not None and k not in [norm(int(c), w) for c in mine]:
                return None
    # phis
    new = {}
    for I in P.phis[S]:
        for x, b in I.d['in']:
            if b == B.id:
                c = const_of(fn, e, x)
                if c is None and isinstance(x, int) and x in fn.inst and fn.inst[x].op == 'select':
                    c = evaluate(fn, e, fn.inst[x])
                if c is not None:
                    if width(I.ty) == 1:
                        c &= 1
                    new[I.id] = ('=', c)
                elif isinstance(x, int) and x in e:
                    new[I.id] = e[x]
                else:
                    new[I.id] = None
                break
    lv = P.live[S]
    # facts about pairs follow their operands into the phis
    pairs = [(k, v) for k, v in e.items() if isinstance(k, tuple)]
    moved = {}
    if pairs:
        into = {}
        for I in P.phis[S]:
            if I.id not in P.tracked:
                continue
            for x, b in I.d['in']:
                if b == B.id and isinstance(x, int):
                    into.setdefault(x, []).append(I.id)
                    break
        for k, v in pairs:
            q, x, y = k
            xs = into.get(x, []) + ([x] if x in lv and x not in new else [])
            ys = into.get(y, []) + ([y] if y in lv and y not in new else [])
            for x2 in xs:
                for y2 in ys:
                    if x2 != y2:
                        k2 = (q,) + (tuple(sorted((x2, y2))) if q == 'eq' else (x2, y2))
                        moved[k2] = v
    for k, v in new.items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    r = {k: v for k, v in e.items() if not isinstance(k, tuple) and (k in lv or k in new or k in P.more) and k in P.tracked}
    r.update(moved)
    return r


NORETURN_SKIP = True


class Path:
    __slots__ = ('block', 'parent', 'inst')

    def __init__(self, block, parent):
        self.block = block
        self.parent = parent


def simulate(fn, init, step, on_exit=None, cap=60000, start=None, edge=None, stop_at_first=True, on_edge=None, pins=None):
    """Runs the automaton.

    step(state, inst, env) -> state | None (path no longer of interest) |
                              list of states; raise Violation via returning
                              ('VIOLATION', text)
    on_exit(state, inst, env) for ret/resume/unreachable terminators: returns None
                              or text of a violation
    Returns (violations, stats).  A violation is (text, inst, [blocks])."""
    P = prep(fn)
    if pins:
        c = fn.__dict__.setdefault('_preps', {})
        k = frozenset(pins)
        if k not in c:
            c[k] = Prep(fn, k)
        P = c[k]
    viol = []
    stats = {'states': 0, 'blocks': set()}
    seen = set()
    consts = {}
    st = [(start or fn.entry, {}, init, None)]
    while st:
        B, env, s, par = st.pop()
        key = (B, frozenset(env.items()), s)
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > cap:
            raise Stop('state cap in ' + fn.short())
        stats['states'] += 1
        stats['blocks'].add(B)
        node = Path(B, par)
        states = [(s, dict(env))]
        dead = False
        for I in B.insts:
            if I.op == 'phi':
                continue
            nxt = []
            for s1, e in states:
                r = step(s1, I, e)
                if isinstance(r, tuple) and r and r[0] == 'VIOLATION':
                    viol.append((r[1], I, trace(node)))
                    if stop_at_first:
                        continue
                    r = s1
                if r is None:
                    continue
                rs = r if isinstance(r, list) else [r]
                if I.id in P.tracked:
                    c = evaluate(fn, e, I)
                    if pins and I.id in pins:
                        e[I.id] = pins[I.id]
                    elif c is not None:
                        e[I.id] = ('=', c)
                    else:
                        e.pop(I.id, None)
                    for k in [k for k in e if isinstance(k, tuple) and I.id in k[1:]]:
                        del e[k]
                for x in rs:
                    nxt.append((x, e if len(rs) == 1 else dict(e)))
            states = nxt
            if not states:
                dead = True
                break
        if dead:
            continue
        T = B.term
        if not B.succs:
            for s1, e in states:
                if on_exit:
                    m = on_exit(s1, T, e)
                    if m:
                        viol.append((m, T, trace(node)))
            continue
        succ = T.d['succ']
        done = set()
        for s1, e in states:
            for i, sid in enumerate(succ):
                S = fn.bb[sid]
                if T.op == 'switch' and (sid in done):
                    continue
                e2 = edge_env(fn, P, e, B, S, i)
                if e2 is None:
                    continue
                for I in P.phis[S]:
                    # a counter that keeps taking new values is no constant
                    f = e2.get(I.id)
                    if f and f[0] == '=':
                        k = consts.setdefault(I.id, set())
                        if len(k) > 40:
                            del e2[I.id]
                        else:
                            k.add(f[1])
                s2 = s1
                if on_edge:
                    s2 = on_edge(s1, B, S, e2)
                    if s2 is None:
                        continue
                    if isinstance(s2, tuple) and s2 and s2[0] == 'VIOLATION':
                        viol.append((s2[1], T, trace(node)))
                        continue
                st.append((S, e2, s2, node))
    return viol, stats


def trace(node):
    r = []
    while node:
        r.append(node.block)
        node = node.parent
    r.reverse()
    return r


def pathstr(blocks):
    """source lines the path goes through"""
    out = []
    for B in blocks:
        for I in B.insts:
            l = I.d.get('loc')
            if l:
                w = I.where()
                if not out or out[-1] != w:
                    out.append(w)
                break
    if len(out) > 14:
        out = out[:6] + ['...'] + out[-7:]
    return ' -> '.join(out)
