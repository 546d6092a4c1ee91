"""C01 publication, C03 blocking/dropping, C04 log-path effects, C05 capture."""
import re
from ..ir import Inst, fieldname, mem_ptr, operands, addr
from ..lin import Lin, lanes, leaves, lower
from ..sim import simulate, pathstr, cint, const_of, width, val_width, assume, Stop
from ..build import Broken
from ..pathval import slice_phis
from ..producer import (Producer, irole, role_name, facts_of_edge, REL, ACQ, capacity)


def shape_fns(mod):
    r = []
    for n in sorted(mod.fns):
        m = re.match(r'w_shape__(TRY_)?(LOG\w*?)__(\w+)$', n)
        if m:
            r.append((n, bool(m.group(1)), m.group(2), m.group(3)))
    return r


# ------------------------------------------------------------------ C01
def must_flow(fn, init, step, on_edge):
    """forward must-analysis: facts (c, terms) that hold on every path; the meet
    keeps the smaller limit for the same terms.  Violations are reported from the
    fixed point."""
    def meet(x, y):
        b = {t: c for c, t in y}
        return frozenset((min(c, b[t]), t) for c, t in x if t in b)
    IN = {fn.entry: init}
    work = [fn.entry]
    n = 0
    while work:
        B = work.pop(0)
        n += 1
        if n > 20000:
            raise Stop('no fixed point in ' + fn.short())
        s = IN[B]
        for I in B.insts:
            if I.op == 'phi':
                continue
            r = step(s, I, {})
            if isinstance(r, tuple) and r and r[0] == 'VIOLATION':
                continue
            s = r
        for S in B.succs:
            o = on_edge(s, B, S, {})
            x = o if S not in IN else meet(IN[S], o)
            if S not in IN or x != IN[S]:
                IN[S] = x
                if S not in work:
                    work.append(S)
    out = []
    for B in fn.blocks:
        if B not in IN:
            continue
        s = IN[B]
        for I in B.insts:
            if I.op == 'phi':
                continue
            r = step(s, I, {})
            if isinstance(r, tuple) and r and r[0] == 'VIOLATION':
                out.append((r[1], I))
                continue
            s = r
    return out


def space_rule(rep, P, fn, rid):
    """every queue write lies in space the reader granted, and inside what is
    published"""
    B = P.base()
    writes = P.writeset
    memo = {}

    def lin_phi_into(Bk, S):
        k = (Bk.id, S.id)
        if k not in memo:
            m = []
            for I in S.insts:
                if I.op != 'phi':
                    break
                for x, b in I.d['in']:
                    if b == Bk.id:
                        m.append((I.id, P.L.lin(x)))
                        break
            memo[k] = m
        return memo[k]

    limits = {I.id for I in fn.all() if I.op == 'load' and irole(I) in ('nread', 'wrnread')}
    W = P.W()

    def refine(facts, kind, l):
        """what a comparison adds to what is known to be granted"""
        new = set()
        for c, t in facts:
            K = Lin(c, dict(t))
            for d in ([l] if kind == 'ge' else [l, l.scale(-1)]):
                if any(a[0] == 'v' and d.t.get(a) == k for a, k in t):
                    N = K - d
                    if kind == 'ne' and N.const() not in (None, 0):
                        continue
                    new.add((N if kind == 'ge' else N.plus(1)).key())
        return new

    def on_edge(s, Bk, S, env):
        facts = set(s)
        t = Bk.term
        if t.op == 'br' and t.a and len(t.d['succ']) == 2 and t.d['succ'][0] != t.d['succ'][1]:
            pol = 1 if S.id == t.d['succ'][0] else 0
            for kind, l in facts_of_edge(P, t.a[0], pol):
                if kind in ('ge', 'ne'):
                    facts |= refine(facts, kind, l)
        phis = lin_phi_into(Bk, S)
        if phis:
            ids = {('v', p) for p, _ in phis}
            out = set()
            for k in facts:
                if not any(a in ids for a, _ in k[1]):
                    out.add(k)
                L = Lin(k[0], dict(k[1]))
                LB = L + B
                for p, l in phis:
                    if l.t and (all(L.t.get(a) == c for a, c in l.t.items()) or
                                any(a[0] == 'v' for a in l.t) and all(LB.t.get(a) == c for a, c in l.t.items())):
                        N = (L - l) + Lin(0, {('v', p): 1})
                        if not any(a in ids and a != ('v', p) for a in N.t):
                            out.add(N.key())
            facts = out
        # of two facts about the same terms the larger limit implies the other;
        # limits behind a moving cursor are of no further use
        best = {}
        for c, t in facts:
            if t not in best or best[t] < c:
                best[t] = c
        return frozenset((c, t) for t, c in best.items() if c >= -8 or not any(a[0] == 'v' for a, _ in t))

    def step(s, I, env):
        w = writes.get(I.id)
        me = ('v', I.id)
        if any(a == me for _, t in s for a, _ in t):
            s = frozenset(k for k in s if not any(a == me for a, _ in k[1]))
        if I.id in limits:
            return s | {(P.L.lin(I.id) - W).key()}
        if w is not None:
            _, a, sz, kind = w
            n = Lin(1) if sz is None else (Lin(sz) if not isinstance(sz, dict) and kind == 'store' else P.L.lin(sz))
            off = P.L.lin(a) - B
            want = off + n
            good = False
            if kind == 'mem' and n.const() is None and off.const() is not None:
                if any(re.match(r'_ZNSt7__cxx1112basic_stringI.*EC[12]E', nm) for _, _, nm in I.d.get('loc') or ()):
                    # a string object is moved into the record: its inline
                    # buffer, which is part of the object
                    return s
            for k in s:
                d = lower(Lin(k[0], dict(k[1])) - want)
                if d is not None and d >= 0:
                    good = True
                    break
            if not good:
                return ('VIOLATION', 'queue write of %r bytes at record offset %r is not covered by space the reader has granted (granted: %s)' % (
                    n, off, ', '.join(repr(Lin(k[0], dict(k[1]))) for k in sorted(s, key=str)[:4]) or 'none'))
        elif I in P.publish and I.op == 'store' and cint(I.a[0]) != 0:
            amt = P.L.lin(I.a[0]) - P.W()
            if not any(a[0] == 'v' or (a[0] == 'align' and any(x[0][0] == 'v' for x in a[2][1])) for a in amt.t) and not (any(a[0] == 'align' and a[1] <= 8 for a in amt.t)):
                if not any((lower(Lin(k[0], dict(k[1])) - amt) or -1) >= 0 or Lin(k[0], dict(k[1])) == amt for k in s):
                    return ('VIOLATION', 'publishes %r bytes but only %s were granted' % (amt, [repr(Lin(k[0], dict(k[1]))) for k in s]))
        return s
    for t, I in must_flow(fn, frozenset(), step, on_edge)[:2]:
        rep.bad(rid, I.where(), '%s in %s' % (t, fn.short()))
    rep.n('queue_writes_bounded', len(writes))


def order_rule(rep, P, fn):
    """no byte of a record is written after the record was published"""
    srcs = {}

    def sources(v):
        """writer-position values an address was computed from"""
        if v in srcs:
            return srcs[v]
        seen, st, out = set(), [v], set()
        while st:
            x = st.pop()
            if not isinstance(x, int) or x in seen:
                continue
            seen.add(x)
            I = fn.inst.get(x)
            if I is None:
                continue
            if I.op == 'load':
                if irole(I) == 'wrnwritten':
                    out.add(x)
                continue
            if I.is_call:
                continue
            if any(x == p.a[0] for p in P.publish if p.op == 'store'):
                out.add(x)
                continue
            st += operands(I)
        srcs[v] = out
        return out
    pos = {I.id for I in fn.all() if I.op == 'load' and irole(I) == 'wrnwritten'}
    pubvals = {p.a[0] for p in P.publish if p.op == 'store' and isinstance(p.a[0], int)}

    def step(s, I, env):
        seen, stale = s
        if I.id in P.writeset:
            bad = sources(P.writeset[I.id][1]) & stale
            if bad:
                return ('VIOLATION', 'queue memory of a record is written after the record was made visible to the reader')
        if I.op == 'store' and I in P.publish:
            return (seen, stale | frozenset(x for x in seen if x != I.a[0]))
        if I.id in pos or I.id in pubvals:
            return (seen | {I.id}, stale - {I.id})
        return s
    v, st = simulate(fn, (frozenset(), frozenset()), step)
    rep.n('path_states', st['states'])
    for t, I, path in v[:2]:
        rep.bad('publish-last', I.where(), '%s in %s; path %s' % (t, fn.short(), pathstr(path)))


def extent_rule(rep, P, fn, single=True):
    """what is published is what was filled: constant-offset writes lie inside the
    published extent, and the shared and private positions move together"""
    B = P.base()
    for pub in P.publish:
        if pub.op == 'store' and cint(pub.a[0]) == 0:
            continue   # reset of an unused queue
        if pub.op != 'store':
            rep.bad('publish-store', pub.where(), 'record published by something other than a store in %s' % fn.short())
            continue
        rep.n('publish_sites')
        if pub.d.get('ord') not in REL:
            rep.bad('release', pub.where(), 'the store that makes a record visible has ordering %r, which does not order the record contents before it (%s)' % (pub.d.get('ord') or 'none', fn.short()))
        # the private copy must be the same value
        v = P.L.lin(pub.a[0])
        if not single:
            continue
        if cint(pub.a[0]) == 0:
            continue
        same = [w for w in P.wr if P.L.lin(w.a[0]) == v]
        if not same:
            rep.bad('position', pub.where(), 'the published position differs from the position the writer keeps in %s' % fn.short())
        amt = v - P.W()
        if any(('fld' == a[0] and len(a) == 3) for a in amt.t):
            continue
        c = amt.const()
        for I, a, sz, kind in P.writes:
            off = P.L.lin(a) - B
            n = Lin(1) if sz is None else (Lin(sz) if kind == 'store' else P.L.lin(sz))
            d = lower(amt - off - n)
            if d is not None:
                rep.n('extent_pairs')
                if d < 0:
                    rep.bad('extent', I.where(), 'a write of %r bytes at offset %r lies outside the %r bytes that %s publishes' % (n, off, amt, fn.short()))
        if c is not None and (c <= 0 or c % 8):
            rep.bad('extent', pub.where(), '%s publishes %d bytes, which is not a positive multiple of the record alignment' % (fn.short(), c))


def origins(P, v):
    """normal forms an address starts from, with the steps of moving cursors
    removed"""
    seen, out, st = set(), [], [v]
    while st:
        x = st.pop()
        if isinstance(x, int):
            if x in seen:
                continue
            seen.add(x)
        l = P.L.lin(x)
        ph = [a[1] for a, k in l.t.items() if a[0] == 'v' and k == 1 and P.ring(a[1]) and
              P.fn.inst[a[1]].op in ('phi', 'select')]
        if len(ph) == 1:
            J = P.fn.inst[ph[0]]
            st += [y for y, _ in J.d['in']] if J.op == 'phi' else J.a[1:]
            continue
        out.append(l)
    return out


def base_rule(rep, P, fn):
    B = P.base()
    if B is None:
        raise Broken('no queue base in ' + fn.short())
    for I, a, sz, kind in P.writes:
        for leaf in origins(P, a):
            l = leaf - B
            # the fixed part must be gone: no queue field may remain
            if P.is_space(l):
                continue
            if any(x[0] == 'fld' or x[0] == 'and' for x in l.t) and not any(x[0] == 'align' for x in l.t):
                rep.bad('wrap', I.where(), 'queue write address is not (mapping base + position wrapped to the capacity of %d): %r in %s' % (P.cap, leaf, fn.short()))


def c01(ctx, rep):
    rep.rule('release', 'every store that publishes the writer position is a release store; every store/RMW that returns space is a release operation')
    rep.rule('acquire', 'every load of the other side\'s position is an acquire load')
    rep.rule('publish-last', 'on no path is queue memory written through an address computed before the last publication')
    rep.rule('space', 'on every path each queue write is covered by a comparison with space the reader granted')
    rep.rule('extent', 'constant-offset writes lie inside the published extent; private and shared positions agree')
    rep.rule('wrap', 'record addresses are base + (position & (capacity-1))')
    rep.rule('consume', 'in the reader loop every record is dispatched inside the readable span, and exactly the consumed bytes are returned after the last dispatch')
    mod = ctx.shapes()
    for n, tr, macro, shape in shape_fns(mod):
        fn = mod.fn(n)
        P = Producer(fn)
        if not P.publish:
            rep.bad('publish', fn.short(), 'no record is published by ' + n)
            continue
        rep.n('witness_functions')
        base_rule(rep, P, fn)
        extent_rule(rep, P, fn)
        order_rule(rep, P, fn)
        space_rule(rep, P, fn, 'space')
        acquire_rule(rep, fn)
        if len(rep.viol) > 6:
            return
    lib = ctx.lib()
    nprod = 0
    for n in sorted(lib.fns):
        if '11trampoline' in n:
            continue
        d = lib.fns[n]
        if not any(i.get('op') == 'store' and i.get('ord') for b in d['bb'] for i in b['i']):
            continue
        fn = lib.fn(n)
        P = Producer(fn)
        if not P.publish or not P.writes:
            continue
        nprod += 1
        pubs = [p for p in P.publish if not (cint(p.a[0]) == 0)]
        single = len(pubs) == 1 and not any(I.op == 'store' and irole(I) in ('wrbase', 'mem') for I in fn.all())
        extent_rule(rep, P, fn, single)
        order_rule(rep, P, fn)
        if single:
            space_rule(rep, P, fn, 'space')
            rep.n('library_single_post_functions')
        acquire_rule(rep, fn)
    rep.n('library_producer_functions', nprod)
    consumer_rule(rep, lib)
    rep.need('witness_functions', 50)
    rep.need('library_single_post_functions', 3)
    rep.need('publish_sites', 60)


def acquire_rule(rep, fn):
    for I in fn.all():
        r = irole(I)
        if I.op == 'load' and r == 'nread':
            rep.n('acquire_loads')
            if I.d.get('ord') not in ACQ:
                rep.bad('acquire', I.where(), 'the writer reads the space the reader returned with ordering %r in %s' % (I.d.get('ord') or 'none', fn.short()))
        if I.op == 'load' and r == 'nwritten':
            rep.n('acquire_loads')
            if I.d.get('ord') not in ACQ:
                rep.bad('acquire', I.where(), 'the published position is read with ordering %r in %s' % (I.d.get('ord') or 'none', fn.short()))
        if r == 'nread' and I.op in ('atomicrmw', 'store', 'cmpxchg') and not (I.op == 'store' and cint(I.a[0]) is not None):
            rep.n('space_return_sites')
            if I.d.get('ord') not in REL:
                rep.bad('release', I.where(), 'queue space is returned to the writer with ordering %r in %s' % (I.d.get('ord') or 'none', fn.short()))


def run_fn(lib):
    fs = lib.by_dem(r'^xtr::detail::consumer::run\(')
    if len(fs) != 1:
        raise Broken('reader loop not found')
    fn = fs[0]
    if not hasattr(fn, 'rotated'):
        fn.rotated = rotate(fn)
    return fn


def rotate(fn):
    """A dispatch loop that tests its condition first is turned into one that
    tests it last, if the test is known to succeed the first time: there is
    something to read, and it starts before the end of the queue."""
    n = 0
    for D in dispatches(fn):
        p = D.a[1]
        F = fn.inst.get(p) if isinstance(p, int) else None
        if F is None or F.op != 'phi':
            continue
        H = F.bb
        t = H.term
        body = [I for I in H.insts if I.op != 'phi']
        if t.op != 'br' or len(t.d['succ']) != 2 or len(body) != 2 or body[0].op != 'icmp' or t.a[0] != body[0].id:
            continue
        C = body[0]
        phis = [I for I in H.insts if I.op == 'phi']
        ent = [P for P in H.preds if not fn.dominates(H, P)]
        lat = [P for P in H.preds if fn.dominates(H, P)]
        inn = [S for S in H.succs if fn.dominates(S, D.bb) and S.preds == [H]]
        if len(ent) != 1 or not lat or len(inn) != 1 or len(H.succs) != 2:
            continue
        E, Bd = ent[0], inn[0]
        if len(E.succs) != 1 or any(I.op == 'phi' for I in Bd.insts):
            continue
        users = [I for I in fn.all() if I is not t and C.id in operands(I)]
        if users or not first_test(fn, Producer(fn).L, F, C, E, Bd is fn.bb[t.d['succ'][0]]):
            continue
        # values the body sees
        nid = max(fn.inst) + 1
        new = {}
        for k, I in enumerate(phis):
            e = [x for x, b in I.d['in'] if b == E.id][0]
            d = {'id': nid, 'op': 'phi', 'ty': I.ty, 'in': [[e, E.id], [I.id, H.id]], 'loc': I.d.get('loc')}
            J = Inst(d, fn, Bd, k)
            new[I.id] = J
            fn.inst[nid] = J
            nid += 1
        inside = [X for X in fn.blocks if X is not H and fn.dominates(Bd, X)]
        for X in inside:
            for I in X.insts:
                subst(I, {o: j.id for o, j in new.items()})
        for X in inside:            # phis outside that take a value from the body
            for S in X.succs:
                if S is H or S in inside:
                    continue
                for I in S.insts:
                    if I.op != 'phi':
                        break
                    for q in I.d['in']:
                        if q[1] == X.id and q[0] in new:
                            q[0] = new[q[0]].id
        for I in H.insts:
            if I.op == 'phi':
                I.d['in'] = [[new[x].id if x in new and x != I.id else x, b] for x, b in I.d['in'] if b != E.id]
        Bd.insts[:0] = [new[I.id] for I in phis]
        for k, I in enumerate(Bd.insts):
            I.idx = k
        E.term.d['succ'] = [Bd.id]
        E.succs = [Bd]
        H.preds = [P for P in H.preds if P is not E]
        Bd.preds = [E, H]
        fn._dom = fn._users = None
        # a value with one source is that source
        for I in phis:
            if len(I.d['in']) == 1:
                src = I.d['in'][0][0]
                H.insts.remove(I)
                del fn.inst[I.id]
                for J in fn.all():
                    subst(J, {I.id: src})
        for k, I in enumerate(H.insts):
            I.idx = k
        n += 1
    return n


def subst(I, m):
    def f(x):
        if isinstance(x, int) and not isinstance(x, bool):
            return m.get(x, x)
        return x
    if I.op == 'phi':
        I.d['in'] = [[f(x), b] for x, b in I.d['in']]
        return
    I.a = I.d['a'] = [f(x) for x in I.a] if I.a else I.a
    if isinstance(I.d.get('callee'), int):
        I.d['callee'] = f(I.d['callee'])
    if I.d.get('var'):
        I.d['var'] = [[f(x)] + list(y) for x, *y in I.d['var']]


def first_test(fn, L, F, C, E, pol):
    if pol and C.d['pred'] not in ('ult', 'ugt', 'ne') or not pol and C.d['pred'] not in ('uge', 'ule', 'eq'):
        return False
    a, b = C.a
    if a != F.id:
        a, b = b, a
        ok = C.d['pred'] in ('ugt', 'ule', 'ne', 'eq')
    else:
        ok = C.d['pred'] in ('ult', 'uge', 'ne', 'eq')
    if a != F.id or not ok:
        return False
    beg = L.lin([x for x, p in F.d['in'] if p == E.id][0])
    acq = {I.id for I in fn.all() if I.op == 'load' and irole(I) == 'nwritten'}

    def size_of(l):
        return any(x[0] == 'v' and x[1] in acq and k == 1 for x, k in l.t.items())

    def positive(l):
        if size_of(l):
            return True
        s = 0
        for x, k in l.t.items():
            J = fn.inst.get(x[1]) if x[0] == 'v' else None
            m = [cint(y) for y in J.a if cint(y) is not None] if J is not None and J.op == 'and' else []
            if x[0] == 'and':
                m = [y for y in x if isinstance(y, int)]
            if k != -1 or len(m) != 1 or m[0] < 0:
                return False
            s += m[0]
        return l.c > s
    end = L.lin(b)
    x = end.single()
    if x and x[0] == 'umin':
        ends_ = [Lin(k[0], dict(k[1])) for k in x[1]]
    elif x and x[0] == 'v' and fn.inst.get(x[1]) is not None and fn.inst[x[1]].op == 'select':
        ends_ = [L.lin(y) for y in fn.inst[x[1]].a[1:3]]
    else:
        ends_ = [end]
    if not all(positive(y - beg) for y in ends_):
        return False

    class Q:
        pass
    P = Q()
    P.fn, P.L = fn, L

    def nonempty(B, S):
        t = B.term
        if t.op != 'br' or not t.a or len(t.d['succ']) != 2:
            return False
        pol = 1 if S.id == t.d['succ'][0] else 0
        return any(kind == 'ne' and (size_of(l) or size_of(l.scale(-1))) or kind == 'ge' and l.c == -1 and size_of(l.plus(1))
                   for kind, l in facts_of_edge(P, t.a[0], pol))
    work = [fn.inst[i].bb for i in acq] + [fn.entry]
    seen = set(work)
    while work:
        B = work.pop()
        if B is E:
            return False
        for S in B.succs:
            if S not in seen and not nonempty(B, S):
                seen.add(S)
                work.append(S)
    return True


def dispatches(fn):
    """indirect calls through a pointer loaded from queue memory: the record
    dispatch"""
    r = []
    for I in fn.calls():
        c = I.d.get('callee')
        if isinstance(c, int):
            J = fn.inst.get(c)
            if J is not None and J.op == 'load' and len(I.a) == 5:
                r.append(I)
    return r


def consumer_rule(rep, lib):
    fn = run_fn(lib)
    D = dispatches(fn)
    if not D:
        raise Broken('record dispatch not found in reader loop')
    from ..lin import Linear
    P = Producer(fn)
    L = P.L
    rep.n('dispatch_sites', len(D))
    # orderings
    for I in fn.all():
        r = irole(I)
        if I.op == 'load' and r == 'nwritten':
            rep.n('acquire_loads')
            if I.d.get('ord') not in ACQ:
                rep.bad('acquire', I.where(), 'the reader loop reads the published position with ordering %r' % (I.d.get('ord') or 'none'))
        if r == 'nread' and I.op in ('atomicrmw', 'store', 'cmpxchg'):
            rep.n('space_return_sites')
            if I.d.get('ord') not in REL:
                rep.bad('release', I.where(), 'the reader returns queue space with ordering %r' % (I.d.get('ord') or 'none'))
        if r in ('wrbase', 'wrnwritten', 'wrnread') and I.op == 'store':
            rep.bad('writer-private', I.where(), 'the reader writes a position that belongs to the writer')
        if r == 'nwritten' and I.op in ('store', 'atomicrmw'):
            rep.bad('writer-private', I.where(), 'the reader writes the position that belongs to the writer')
    rets = [I for I in fn.all() if irole(I) == 'nread' and I.op in ('atomicrmw', 'store')]
    if not rets:
        rep.bad('consume', fn.short(), 'the reader loop never returns queue space')
    acqs = {I.id for I in fn.all() if I.op == 'load' and irole(I) == 'nwritten'}
    dset = {I.id for I in D}
    rset = {I.id for I in rets}
    # typestate: acquire -> dispatch+ -> return (once) -> acquire
    def step(s, I, env):
        if I.id in acqs:
            return 'span'
        if I.id in dset:
            if s == 'start' or s == 'returned':
                return ('VIOLATION', 'a record is dispatched %s' % ('before the published position was read' if s == 'start' else 'although its space has already been returned to the writer'))
            return 'used'
        if I.id in rset:
            if s == 'returned':
                return ('VIOLATION', 'queue space is returned twice for one span')
            if s == 'start':
                return ('VIOLATION', 'queue space is returned that was never read')
            return 'returned'
        return s
    v, st = simulate(fn, 'start', step, cap=400000)
    rep.n('path_states', st['states'])
    for t, I, path in v[:2]:
        rep.bad('consume', I.where(), '%s; path %s' % (t, pathstr(path)))
    # amount returned: (result of the last dispatch) - (start of the span)
    for R in rets:
        if R.op != 'atomicrmw' or R.d.get('rmw') != 'add':
            continue
        amt = L.lin(R.a[1])
        tails = []
        begins = []
        for a, k in amt.t.items():
            if k == 1:
                tails.append(a)
            elif k == -1:
                begins.append(a)
        ok = len(tails) >= 1
        last = [a for a in tails if ends_at(fn, a, dset)]
        if len(last) != 1:
            rep.bad('consume', R.where(), 'the space returned (%r) is not measured from the end of the last record the reader processed' % amt)
            continue
        rest = Lin(0, {last[0]: 1}) - amt
        # rest must be where the first dispatch of the span starts
        starts = set()
        for I in D:
            for leaf in leaves(fn, I.a[1]):
                if isinstance(leaf, int) and leaf in dset:
                    continue
                starts.add(L.lin(leaf))
        if starts != {rest}:
            rep.bad('consume', R.where(), 'the space returned is not (end of last record) - (start of the span): %r' % amt)
        rep.n('return_amounts')
    # the argument and the function pointer come from the same place, and the
    # next record starts where the previous one ended
    for I in D:
        J = fn.inst[I.d['callee']]
        if L.lin(J.a[0]) != L.lin(I.a[1]):
            rep.bad('consume', I.where(), 'the record function is not the one stored at the record being processed')
    # loop bound: a further dispatch only while pos < begin + size
    span_bound(rep, fn, L, D, dset)


def ends_at(fn, a, dset):
    """the atom is the result of a dispatch, whichever was last"""
    return a[0] == 'v' and all(isinstance(x, int) and x in dset for x in leaves(fn, a[1]))


def span_bound(rep, fn, L, D, dset):
    """every dispatch at position p is on a path where p < end of the readable
    span: first because the span is not empty, then because of the loop test"""
    # readable size: nwritten(acquire) - nr, with nr = nread - capacity
    class Q:
        pass
    P = Q()
    P.fn, P.L = fn, L
    acq = {I.id for I in fn.all() if I.op == 'load' and irole(I) == 'nwritten'}

    def step(s, I, env):
        if I.id in acq:
            return frozenset()
        if I.id in dset:
            p = L.lin(I.a[1])
            if p.key() not in {k for k in s}:
                return ('VIOLATION', 'a record may be dispatched at a position that was not compared with the end of the readable data')
            return s
        return s

    def size_of(l):
        """l is (published position) - nr for an acquire load"""
        return any(a[0] == 'v' and a[1] in acq and k == 1 for a, k in l.t.items())

    starts = set()
    for I in D:
        for leaf in leaves(fn, I.a[1]):
            if isinstance(leaf, int) and leaf not in dset:
                starts.add(L.lin(leaf))

    def on_edge(s, B, S, env):
        t = B.term
        out = set(s)
        if t.op == 'br' and t.a and len(t.d['succ']) == 2:
            pol = 1 if S.id == t.d['succ'][0] else 0
            for kind, l in facts_of_edge(P, t.a[0], pol):
                if kind == 'ne' and (size_of(l) or size_of(l.scale(-1))):
                    for b in starts:
                        out.add(b.key())
                if kind == 'ge' and size_of(l.plus(1)) and l.c == -1:
                    for b in starts:
                        out.add(b.key())
                if kind == 'ge' and l.c == -1:
                    # end - pos - 1 >= 0 where end is bounded by begin+size
                    for a, k in l.t.items():
                        if k == -1 and ends_at(fn, a, dset):
                            end = l.plus(1) + Lin(0, {a: 1})
                            if end_ok(end):
                                out.add(Lin(0, {a: 1}).key())
        # phi renaming
        for I in S.insts:
            if I.op != 'phi':
                break
            for x, b in I.d['in']:
                if b == B.id:
                    k = L.lin(x).key()
                    me = Lin(0, {('v', I.id): 1}).key()
                    if k in s or k in out:
                        out.add(me)
                    elif me in out and L.lin(I.id).key() == me:
                        out.discard(me)
        return frozenset(out)

    def end_ok(end):
        """end is at most begin + size: either that sum, or a minimum including
        it"""
        if any(size_of(end - b) for b in starts):
            return True
        a = end.single()
        if a and a[0] == 'umin':
            return any(any(size_of(Lin(k[0], dict(k[1])) - b) for b in starts) for k in a[1])
        if a and a[0] == 'v':
            J = fn.inst.get(a[1])
            if J is not None and J.op == 'select':
                c = fn.inst.get(J.a[0]) if isinstance(J.a[0], int) else None
                x, y = L.lin(J.a[1]), L.lin(J.a[2])
                if c is not None and c.op == 'icmp' and c.d['pred'] in ('ult', 'ule', 'ugt', 'uge'):
                    p, q = L.lin(c.a[0]), L.lin(c.a[1])
                    lt = c.d['pred'] in ('ult', 'ule')
                    if {p.key(), q.key()} == {x.key(), y.key()}:
                        is_min = (x == p) == lt
                        return is_min and any(size_of(z - b) for z in (x, y) for b in starts)
                return all(any(size_of(z - b) for b in starts) for z in (x, y))
        return False
    v, st = simulate(fn, frozenset(), step, on_edge=on_edge, cap=400000)
    for t, I, path in v[:2]:
        rep.bad('consume', I.where(), '%s; path %s' % (t, pathstr(path)))
    rep.n('dispatch_bounds', len(D))


# ------------------------------------------------------------------ C03
def c03(ctx, rep):
    rep.rule('one-outcome', 'every normal exit of an enabled log statement has published exactly one record (blocking), or published one record or added one to the drop count but not both (non-blocking)')
    rep.rule('no-wait', 'in a non-blocking statement no load of the reader position is executed twice without a byte having been written in between')
    rep.rule('no-drop', 'a blocking statement never touches the drop count')
    rep.rule('no-early-truncation', 'in a blocking statement every edge on which a string is marked truncated is reached only after a fresh reader position showed the queue empty and the string too long for it')
    mod = ctx.shapes()
    mods = [(mod, n, tr) for n, tr, _, _ in shape_fns(mod)]
    lv = ctx.levels()
    for n in sorted(lv.fns):
        m = re.match(r'w_lvl__(TRY_)?LOG(_\w+)?__$', n)
        if m:
            mods.append((lv, n, bool(m.group(1))))
    for m, n, tr in mods:
        fn = m.fn(n)
        P = Producer(fn)
        pub = {I.id for I in P.publish}
        drops = {}
        for I in fn.all():
            if irole(I) == 'dropped' and I.op in ('atomicrmw', 'store', 'cmpxchg'):
                drops[I.id] = I
                if not tr:
                    rep.bad('no-drop', I.where(), 'blocking statement %s changes the drop count' % n)
                elif I.op != 'atomicrmw' or I.d.get('rmw') not in ('add', 'sub') or (cint(I.a[1]) != 1 if I.d.get('rmw') == 'add' else cint(I.a[1]) != -1):
                    rep.bad('one-outcome', I.where(), 'a dropped message changes the drop count other than by an atomic increment of one in %s' % n)
        reads = {I.id for I in fn.all() if I.op == 'load' and irole(I) == 'nread'}

        def step(s, I, env):
            p, d = s
            if I.id in pub:
                return (min(p + 1, 2), d)
            if I.id in drops:
                return (p, min(d + 1, 2))
            return s

        def on_exit(s, T, env):
            if T.op != 'ret':
                return None
            if not tr and s != (1, 0):
                return 'blocking log statement returns having published %d record(s)' % s[0]
            if tr and s not in ((1, 0), (0, 1)):
                return 'non-blocking log statement returns having published %d record(s) and counted %d drop(s)' % s
        v, st = simulate(fn, (0, 0), step, on_exit)
        rep.n('path_states', st['states'])
        rep.n('statements')
        for t, I, path in v[:1]:
            rep.bad('one-outcome', I.where(), '%s (%s); path %s' % (t, n, pathstr(path)))
        if tr:
            ws = P.writeset

            def step2(s, I, env):
                if I.id in reads:
                    if I.id in s:
                        return ('VIOLATION', 'non-blocking statement can wait for the reader: it polls the reader position again without having made progress')
                    return s | {I.id}
                if I.id in ws:
                    return frozenset()
                return s
            v, st = simulate(fn, frozenset(), step2)
            rep.n('path_states', st['states'])
            rep.n('nonblocking_statements')
            for t, I, path in v[:1]:
                rep.bad('no-wait', I.where(), '%s (%s); path %s' % (t, n, pathstr(path)))
        else:
            trunc_rule(rep, P, fn, n)
        if len(rep.viol) > 6:
            return
    rep.need('statements', 60)
    rep.need('nonblocking_statements', 30)
    rep.need('truncation_points', 10)


def trunc_marks(P, fn):
    """CFG edges (block, successor) on which a string is marked as truncated,
    and selects that choose the mark"""
    roots = [I.a[0] for I, a, sz, kind in P.writes if kind == 'store']
    phis, seen = slice_phis(fn, roots)

    def mark(x):
        c = cint(x)
        if c is None:
            return False
        w = val_width(fn, x) or 32
        c &= (1 << w) - 1
        return any((c >> k) & 0xffffffff == 0xffffffff for k in range(0, w - 31, 32))
    edges, sels = {}, []
    for v in seen:
        I = fn.inst.get(v)
        if I is None:
            continue
        if I.op == 'phi':
            for x, b in I.d['in']:
                if mark(x):
                    edges[(b, I.bb.id)] = I
        elif I.op == 'select':
            for k in (1, 2):
                if mark(I.a[k]):
                    sels.append((I, k == 1))
    return edges, sels


def trunc_rule(rep, P, fn, n):
    edges, sels = trunc_marks(P, fn)
    if not edges and not sels:
        return
    reads = {I.id for I in fn.all() if I.op == 'load' and irole(I) == 'nread'}
    cache = {}

    def grants(cond, pol):
        """(queue seen empty, string seen not to fit)"""
        full = short = False
        for k, d in facts_of_edge(P, cond, pol):
            if k not in ('ge', 'eq'):
                continue
            if P.is_space(d.plus(P.cap)):
                full = True
            if k == 'ge' and any(c < 0 and P.is_limit(a) for a, c in d.t.items()):
                if not P.is_space(d.scale(-1).plus(P.cap)):
                    short = True
        return full, short

    def on_edge(s, B, S, env):
        t = B.term
        if t.op == 'br' and len(t.d['succ']) == 2 and t.d['succ'][0] != t.d['succ'][1]:
            key = (B.id, S.id)
            if key not in cache:
                cache[key] = grants(t.a[0], 1 if S.id == t.d['succ'][0] else 0)
            f, sh = cache[key]
            s = (s[0] or f, s[1] or sh)
        if (B.id, S.id) in edges and s != (True, True):
            return ('VIOLATION', 'a blocking statement cuts a string short %s' % (
                'without having seen the queue empty' if not s[0] else 'without having found that it does not fit in the empty queue'))
        return s
    selid = {I.id: (I, p) for I, p in sels}

    def step(s, I, env):
        if I.id in reads:
            return (False, False)
        if I.id in selid:
            f, sh = grants(I.a[0], 1 if selid[I.id][1] else 0)
            if (s[0] or f, s[1] or sh) != (True, True):
                return ('VIOLATION', 'a blocking statement cuts a string short without having seen that it does not fit in the empty queue')
        return s
    v, st = simulate(fn, (False, False), step, on_edge=on_edge)
    rep.n('path_states', st['states'])
    rep.n('truncation_points', len(edges) + len(sels))
    for t, I, path in v[:1]:
        rep.bad('no-early-truncation', I.where(), '%s (%s); path %s' % (t, n, pathstr(path)))


# ------------------------------------------------------------------ C04
ALLOWED = re.compile(
    r'^(llvm\.(mem(cpy|move|set)|lifetime|assume|dbg|x86\.sse2\.pause|umin|umax|smin|smax|ctpop|ctlz|eh|trap|experimental\.noalias|expect|invariant|launder|strip|ptrmask|type\.test|bswap|abs|usub|uadd|stacksave|stackrestore|fsh)'
    r'|memcpy$|memmove$|memset$|strlen$|memcmp$|__clang_call_terminate$|_ZSt9terminatev$|_Unwind_Resume$|__gxx_personality_v0$'
    r'|clock_gettime$|w_arg$|w_dup$|_ZN1w|__cxa_begin_catch$|__cxa_end_catch$)')


def c04(ctx, rep):
    rep.rule('effects', 'the flattened body of every log statement (all callees inlined) contains no call other than memory copies, length of a C string, the clock read of a timestamping statement, and the argument types\' own special members; no inline assembly other than reading the time stamp counter and the pause hint')
    mods = []
    mod = ctx.shapes()
    mods += [(mod, n) for n, _, _, _ in shape_fns(mod)]
    lv = ctx.levels()
    for n in sorted(lv.fns):
        m = re.match(r'w_lvl__(TRY_)?LOGL?(_\w+?)?__(\w*)$', n)
        if m and m.group(3) != 'fatal':
            mods.append((lv, n))
    for m, n in mods:
        fn = m.fn(n)
        rep.n('statements')
        for I in fn.calls():
            rep.n('call_sites')
            c = I.d['callee']
            nm = I.callee
            if nm is None:
                if isinstance(c, dict) and c.get('k') == 'asm':
                    a = c.get('s', '')
                    if a.strip() in ('', 'rdtsc;', 'pause', 'pause;') or re.fullmatch(r'\s*(rdtsc|pause)\s*;?\s*', a):
                        continue
                    rep.bad('effects', I.where(), 'log statement %s executes assembly %r' % (n, a))
                else:
                    rep.bad('effects', I.where(), 'log statement %s makes an indirect call on the logging thread' % n)
                continue
            if ALLOWED.match(nm):
                if nm == 'clock_gettime' and '_RTC' not in n:
                    rep.bad('effects', I.where(), 'log statement %s reads a clock although it does not ask for a timestamp' % n)
                continue
            if fn.mod.decls.get(nm, {}).get('noret') and I.d.get('noret'):
                # aborting is not logging work; reported only if reachable normally
                continue
            rep.bad('effects', I.where(), 'log statement %s calls %s on the logging thread' % (n, fn.mod.dem(nm)[:120]))
        if len(rep.viol) > 6:
            return
    rep.need('statements', 90)


# ------------------------------------------------------------------ C05
def c05(ctx, rep):
    rep.rule('no-alias', 'no word stored in the queue by a statement without nocopy is (derived from) the address of the caller\'s data')
    rep.rule('string-copied', 'the bytes of every string argument are copied into the queue by the statement itself, from the caller\'s data')
    import gen
    kinds = {s[0]: s for s in gen.SHAPES}
    mod = ctx.shapes()
    for n, tr, macro, shape in shape_fns(mod):
        fn = mod.fn(n)
        P = Producer(fn)
        _, params, _, args, ks = kinds[shape]
        rep.n('statements')
        # which IR arguments carry caller data
        nargs = len(fn.args)
        # ptr-derived from arguments other than the sink
        sinkarg = fn.args[0]['id']
        others = {a['id'] for a in fn.args[1:]}
        ptrs = {a['id'] for a in fn.args[1:] if a['ty'] == 'ptr'}
        if 'void*' in params:
            ptrs = set()
        # arguments that are string objects: the data is behind a loaded pointer
        strobj, i = set(), 1
        for prm in [x.strip() for x in params.split(',') if x.strip()]:
            if 'basic_string' in prm or re.match(r'(const )?std::string(_view)?&', prm):
                strobj |= {fn.args[i]['id']} if i < nargs else set()
            i += 2 if re.match(r'std::string_view \w', prm) else 1
        taint = {}

        def derived(v, seen=None):
            """caller address v is computed from, if any"""
            if not isinstance(v, int):
                return None
            if v in taint:
                return taint[v]
            seen = seen if seen is not None else set()
            if v in seen:
                return None
            seen.add(v)
            if v in ptrs:
                return v
            I = fn.inst.get(v)
            r = None
            if I is not None:
                if I.op in ('getelementptr', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'add', 'or', 'select', 'phi', 'sub'):
                    xs = operands(I)
                    if I.op == 'sub':
                        # difference of two addresses is a length
                        a, b = I.a
                        if derived(a, seen) and derived(b, seen):
                            xs = []
                    if I.op == 'select':
                        xs = I.a[1:]
                    for x in xs:
                        r = derived(x, seen)
                        if r:
                            break
                elif I.op == 'load' and I.ty == 'ptr' and 's' in ks:
                    # data pointer held in a string object of the caller
                    a = addr(fn, I.a[0])
                    if isinstance(a.root, int) and a.root in strobj:
                        r = a.root
            taint[v] = r
            return r
        has_nocopy = 'n' in ks
        moved = 'm' in ks
        copied = 0
        for I, a, sz, kind in P.writes:
            if kind == 'store':
                rep.n('queue_stores')
                for l in lanes(fn, I.a[0], min(I.d['sz'], 64)):
                    if l and isinstance(l[0], int):
                        src = derived(l[0])
                        V = fn.inst.get(l[0])
                        if src and not has_nocopy and not moved and V is not None or (src and l[0] in ptrs and not has_nocopy):
                            # a byte loaded from the data is a copy, an address is not
                            if width_ptr(fn, l[0]):
                                rep.bad('no-alias', I.where(), 'the queue keeps the address of the caller\'s data (argument %d of %s) instead of a copy' % (fn.argidx[src], n))
                                break
                V = fn.inst.get(I.a[0]) if isinstance(I.a[0], int) else None
                if V is not None and V.op == 'load' and V.d.get('sz') == 1 and I.d['sz'] == 1 and derived(V.a[0]):
                    copied += 1
            elif kind == 'mem' and len(I.a) > 1 and isinstance(I.a[1], int) and derived(I.a[1]):
                copied += 1
        ns = ks.count('s')
        rep.n('string_arguments', ns)
        if ns and copied < ns:
            rep.bad('string-copied', fn.short(), '%s copies the contents of %d of %d string arguments into the queue' % (n, copied, ns))
        if has_nocopy or moved:
            rep.n('exempt_statements')
        if len(rep.viol) > 6:
            return
    rep.need('statements', 50)
    rep.need('string_arguments', 30)


def width_ptr(fn, v):
    if v in fn.argidx:
        return fn.args[fn.argidx[v]]['ty'] == 'ptr'
    I = fn.inst.get(v)
    return I is not None and (I.ty == 'ptr' or width(I.ty) == 64)
