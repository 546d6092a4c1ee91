"""C02: the reader decodes a record exactly as the writer encoded it."""
import re
from ..ir import addr, mem_ptr, operands, fieldname
from ..lin import Lin, Linear, lower
from ..sim import simulate, cint, width, pathstr, const_of
from ..build import Broken
from ..producer import Producer, irole, capacity
from ..pathval import Val, slice_phis, phi_edges, pm_edge, pm_dict, loop_headers
from .queue import shape_fns

FMT = re.compile(r'^_ZN3fmt.*\d+(v?format_to)I')
R = ('R',)


def rename(l, f):
    """apply f to every atom, also inside align()"""
    r = Lin(l.c)
    for a, k in l.t.items():
        if a[0] == 'align':
            x = rename(Lin(a[2][0], dict(a[2][1])), f)
            r = r + Lin(0, {('align', a[1], x.key()): k})
        else:
            y = f(a)
            r = r + (y.scale(k) if isinstance(y, Lin) else Lin(0, {y: k}))
    return r


def fix_align(l):
    """align_n(x + c) with n | c pulled out, so that equal forms compare equal"""
    r = Lin(l.c)
    for a, k in l.t.items():
        if a[0] == 'align':
            x = Lin(a[2][0], dict(a[2][1]))
            x = fix_align(x)
            n = a[1]
            q = x.c // n * n
            r = r + Lin(q * k, {('align', n, x.plus(-q).key()): k})
        else:
            r = r + Lin(0, {a: k})
    return r


# ------------------------------------------------------------------ writer
def writer_outcomes(P, fn, rep=None):
    """set of (entries, published amount, trampoline, writes) over all paths"""
    B = P.base()

    roots = []
    for p in P.publish:
        roots.append(p.a[0])
    for I, a, sz, kind in P.writes:
        roots.append(a)
        if kind == 'store':
            roots.append(I.a[0])
        elif kind == 'mem':
            roots += [I.a[1], I.a[2]]
    phis, _ = slice_phis(fn, roots)
    edges = phi_edges(fn, phis)
    out = {}
    pubs = {p.id for p in P.publish}

    def on_edge(s, Bk, S, env):
        return (pm_edge(edges, s[0], Bk, S), s[1])

    def step(s, I, env):
        pm, ws = s
        w = P.writeset.get(I.id)
        if w is not None:
            V = Val(P.L, pm_dict(pm), env)
            o = V.lin(w[1]) - B
            if any(a[0] == 'v' for a in o.t) and w[3] != 'mem':
                return s            # string bytes
            if w[3] == 'mem' and any(re.match(r'_ZNSt7__cxx1112basic_stringI.*EC[12]E', nm) for _, _, nm in I.d.get('loc') or ()):
                return s            # inline buffer of a moved string object
            if w[3] == 'store':
                ln = V.lanes(I.a[0], I.d['sz'])
                vals = []
                for x in ln:
                    if x is None or x[0] in ('c', 'sym'):
                        vals.append(x)
                    else:
                        vals.append((V.lin(x[0]).key(), x[1]))
                ws2 = frozenset(x for x in ws if x[0] != o.key() or x[1] != I.d['sz']) | {(o.key(), I.d['sz'], tuple(vals))}
                return (pm, ws2)
            n = V.lin(w[2]) if w[3] == 'mem' else None
            return (pm, ws | {(o.key(), n.key() if n is not None else None, ('copy', I.id))})
        if I.id in pubs and I.op == 'store':
            V = Val(P.L, pm_dict(pm), env)
            amt = V.lin(I.a[0]) - P.W()
            out.setdefault((ws, (amt + B).key()), I)
            return None
        return s
    v, st = simulate(fn, (frozenset(), frozenset()), step, on_edge=on_edge)
    return out, st['states']


# ------------------------------------------------------------------ reader
class Reader:
    def __init__(self, fn):
        self.fn = fn
        self.rec = fn.args[1]['id']
        self.L = Linear(fn)
        self.ret = [B.term for B in fn.blocks if B.term.op == 'ret']
        self.L.hook = self.hook
        self.loads = {}
        for I in fn.all():
            if I.op == 'load':
                l = self.L.lin(I.a[0]) - Lin(0, {('arg', 1): 1})
                a = addr(fn, I.a[0])
                if self.from_rec(I.a[0]):
                    self.loads[I.id] = I
        _, seen = slice_phis(fn, [t.a[0] for t in self.ret if t.a])
        self.entries = {}
        for v in seen:
            if v in self.loads:
                I = self.loads[v]
                self.entries[v] = self.inR(self.L.lin(I.a[0])) - Lin(0, {R: 1})

    def from_rec(self, v, seen=None):
        seen = seen if seen is not None else set()
        if v == self.rec:
            return True
        if not isinstance(v, int) or v in seen:
            return False
        seen.add(v)
        I = self.fn.inst.get(v)
        if I is None or I.op == 'load' or I.is_call:
            return False
        return any(self.from_rec(x, seen) for x in operands(I))

    def inR(self, l):
        return rename(l, lambda a: R if a == ('arg', 1) else a)

    def hook(self, V, v):
        I = self.fn.inst.get(v)
        if I is None:
            return None
        if I.op in ('zext', 'load', 'and'):
            n = max((width(I.ty) or 8) // 8, 1)
            ln = V.lanes(v, n)
            src = {x[0] for x in ln if x and x[0] not in ('c', 'sym')}
            if len(src) == 1 and None not in ln:
                (s,) = src
                if s in self.entries:
                    used = [x[1] for x in ln if x[0] == s]
                    if used == list(range(used[0], used[0] + len(used))) and all(x == ('c', 0) for x in ln[len(used):]):
                        off = self.entries[s].plus(used[0])
                        return Lin(0, {('E', off.key(), len(used)): 1})
        return None

    def cases(self, trunc):
        """consumed extent and the format arguments, with the string entries at
        the offsets in trunc saying truncated and the others not"""
        fn = self.fn
        pins = {}
        for v, o in self.entries.items():
            I = fn.inst[v]
            if o.key() in trunc:
                pins[v] = ('=', -1)
            else:
                pins[v] = ('!', frozenset([-1]))
        roots = [t.a[0] for t in self.ret if t.a]
        # what the format call is given
        sinks = []
        for I in fn.all():
            if I.op == 'store':
                a = addr(fn, I.a[1])
                if isinstance(a.root, int) and a.root in fn.inst and fn.inst[a.root].op == 'alloca' and not a.var:
                    sinks.append((I.id, a.root, a.off))
                    roots.append(I.a[0])
        fm = [I for I in fn.calls() if I.callee and FMT.match(I.callee)]
        for I in fm:
            roots += I.a
        phis, _ = slice_phis(fn, roots)
        edges = phi_edges(fn, phis)
        sk = {i: (r, o) for i, r, o in sinks}
        fms = {I.id for I in fm}
        self.fmts = fm
        outs = {}

        def on_edge(s, B, S, env):
            return (pm_edge(edges, s[0], B, S), s[1], s[2])

        def step(s, I, env):
            pm, mem, f = s
            if I.id in sk:
                V = Val(self.L, pm_dict(pm), env)
                r, o = sk[I.id]
                val = self.inR(V.lin(I.a[0]))
                mem = frozenset(x for x in mem if (x[0], x[1]) != (r, o)) | {(r, o, val.key())}
                return (pm, mem, f)
            if I.id in fms:
                V = Val(self.L, pm_dict(pm), env)
                args = []
                m = {}
                for r, o, k in mem:
                    m.setdefault(r, {})[o] = k
                for x in I.a:
                    x = V.res(x)
                    a = addr(fn, x)
                    if isinstance(a.root, int) and a.root in m and a.off in m[a.root]:
                        args.append(('mem', tuple(sorted((o - a.off, k) for o, k in m[a.root].items() if o >= a.off))))
                    else:
                        args.append(('ptr', self.inR(V.lin(x)).key()))
                return (pm, mem, tuple(args))
            if I.op == 'ret' and I.a:
                V = Val(self.L, pm_dict(pm), env)
                outs.setdefault((self.inR(V.lin(I.a[0])).key(), f), I)
            return s
        v, st = simulate(fn, (frozenset(), frozenset(), None), step, on_edge=on_edge, pins=pins)
        return outs, st['states']


def trampoline_of(ws):
    """the function pointer written at offset 0"""
    for o, n, vals in ws:
        if o == (0, frozenset()) and n == 8 and vals[0] and vals[0][0] == 'sym':
            m = re.search(r"'n': '([^']*)'", vals[0][1])
            return m.group(1) if m else None
    return None


def bytes_at(ws, off, n):
    """value lanes the writer stored at off"""
    res = [None] * n
    for o, sz, vals in ws:
        if isinstance(vals, tuple) and vals and vals[0] == 'copy':
            continue
        d = (off - Lin(o[0], dict(o[1]))).const()
        if d is None:
            continue
        for i in range(n):
            if 0 <= d + i < sz:
                res[i] = vals[d + i]
    return res


def show(k):
    return repr(Lin(k[0], dict(k[1]))) if k else '?'


def c02(ctx, rep):
    rep.rule('extent', 'for every argument shape and every combination of stored and truncated strings, the number of bytes the reader moves past equals the number the writer published (equal normal forms after substituting the stored lengths)')
    rep.rule('entry', 'a stored string length is kept at full width and cannot equal the truncation mark (the mark exceeds the queue capacity)')
    rep.rule('argument', 'every argument the reader formats lies where the writer put it: captured objects at the written offset, string i at the end of the strings before it with its stored length')
    import gen
    kinds = {s[0]: s for s in gen.SHAPES}
    mod = ctx.shapes()
    cap = capacity(mod)
    readers = {}
    for n, tr, macro, shape in shape_fns(mod):
        fn = mod.fn(n)
        P = Producer(fn)
        if not P.publish or P.base() is None:
            raise Broken('no record in ' + n)
        B = P.base()
        outs, ns = writer_outcomes(P, fn)
        rep.n('path_states', ns)
        rep.n('statements')
        if not outs:
            rep.bad('extent', fn.short(), 'no record is published by ' + n)
        for (ws, amt), I in outs.items():
            rep.n('writer_outcomes')
            tn = trampoline_of(ws)
            if tn is None or tn not in mod.fns:
                rep.bad('extent', I.where(), '%s publishes a record that does not start with a record function' % n)
                break
            if amt is None:
                rep.bad('extent', I.where(), '%s publishes an extent that is not measured from the record' % n)
                break
            if tn not in readers:
                readers[tn] = Reader(mod.fn(tn))
            rd = readers[tn]
            ents, trunc, bad = {}, set(), False
            for v, o in rd.entries.items():
                J = rd.fn.inst[v]
                sz = J.d['sz']
                # entries may be loaded several at a time: look at each 4 bytes
                b = bytes_at(ws, rename(o, lambda a: B if a == R else a), sz)
                if any(x is None for x in b):
                    rep.bad('entry', J.where(), 'the reader takes a length from record offset %r, where %s stores nothing' % (o, n))
                    bad = True
                    break
                if all(x == ('c', 255) for x in b):
                    trunc.add(o.key())
                    if (1 << (8 * sz)) - 1 <= cap:
                        rep.bad('entry', J.where(), 'the truncation mark is a possible string length')
                        bad = True
                elif all(x[0] == 'c' for x in b):
                    ents[o.key(), sz] = Lin(sum(x[1] << (8 * i) for i, x in enumerate(b)))
                elif len({x[0] for x in b}) == 1 and [x[1] for x in b] == list(range(sz)):
                    k = b[0][0]
                    ents[o.key(), sz] = Lin(k[0], dict(k[1]))
                    if (1 << (8 * sz)) - 1 <= cap:
                        rep.bad('entry', J.where(), 'a string length is kept in %d bytes, too few for a queue of %d bytes' % (sz, cap))
                        bad = True
                else:
                    # part of the length is cut off
                    rep.bad('entry', I.where(), '%s does not store the whole length of a string where the reader expects it (record offset %r)' % (n, o))
                    bad = True
                if bad:
                    break
            if bad:
                break
            cs, ns = rd.cases(frozenset(trunc))
            rep.n('path_states', ns)
            want = fix_align(Lin(amt[0], dict(amt[1])))

            def sub(a):
                if a == R:
                    return B
                if a[0] == 'E':
                    e = ents.get((a[1], a[2]))
                    return e if e is not None else a
                return a
            for (ret, fargs), J in cs.items():
                rep.n('extent_pairs')
                got = fix_align(rename(Lin(ret[0], dict(ret[1])), sub))
                if rep.counts['extent_pairs'] <= 4:
                    rep.samples.append('%s: published %r, consumed %r' % (n, want, got))
                if got != want:
                    rep.bad('extent', J.where(), 'the reader moves past %r bytes of a record for which %s publishes %r (strings truncated: %d)' % (
                        got - B, n, want - B, len(trunc)))
                    break
                if fargs is not None:
                    check_args(rep, n, kinds[shape], ws, fargs, ents, trunc, sub, rd, macro, want, B)
            if rep.viol:
                break
        if len(rep.viol) > 4:
            return
    rep.n('record_functions', len(readers))
    destroy_rule(rep, mod, readers)
    rep.need('statements', 50)
    rep.need('writer_outcomes', 70)
    rep.need('extent_pairs', 70)
    rep.need('string_arguments', 30)
    rep.need('captured_arguments', 30)


def check_args(rep, n, shape, ws, fargs, ents, trunc, sub, rd, macro, want, B):
    """fargs: buffer, fmt data, fmt size, level, timestamp, name, then the user's"""
    ks = shape[4]
    user = fargs[6:]
    if macro != 'LOG':
        # the timestamp is itself captured
        pass
    if len(user) < len(ks):
        rep.bad('argument', rd.fmts[0].where(), '%s formats %d arguments, the statement has %d' % (n, len(user), len(ks)))
        return
    user = user[:len(ks)] if macro == 'LOG' else user[-len(ks):] if ks else ()
    wr = []
    for o, sz, vals in ws:
        wr.append((Lin(o[0], dict(o[1])), sz))
    cur = None
    spans = []
    slots = sorted(rd.entries.items(), key=lambda x: str(x))
    for k, a in zip(ks, user):
        if k == 's':
            rep.n('string_arguments')
            if a[0] != 'mem':
                rep.bad('argument', rd.fmts[0].where(), 'string argument of %s is not formatted through a bounded string' % n)
                return
            m = dict(a[1])
            ln = Lin(m[0][0], dict(m[0][1])) if 0 in m else None
            pt = Lin(m[8][0], dict(m[8][1])) if 8 in m else None
            if ln is None or pt is None:
                continue
            E = ln.single()
            if E and E[0] == 'E':
                # position: after the strings before it
                p = rename(pt, sub)
                l = rename(ln, sub)
                if cur is None:
                    cur = p
                elif fix_align(p) != fix_align(cur):
                    rep.bad('argument', rd.fmts[0].where(), 'a string of %s is read at %r, but the strings before it end at %r' % (n, p, cur))
                    return
                spans.append((fix_align(p), fix_align(l)))
                cur = cur + l
            elif ln.const() is not None and any(x[0] == 'g' for x in pt.t):
                pass            # the truncation text
            else:
                rep.bad('argument', rd.fmts[0].where(), 'the length of a string of %s is not the stored length: %r' % (n, ln))
                return
        elif k in 'vm':
            if a[0] == 'ptr':
                l = rename(Lin(a[1][0], dict(a[1][1])), sub) - B
                rep.n('captured_arguments')
                ok = False
                for o, sz in wr:
                    d = (fix_align(l) - fix_align(o)).const()
                    if d is None:
                        continue
                    hi = sz if isinstance(sz, int) else (sz[0] if sz and not sz[1] else 1 << 30) if sz else 1 << 30
                    if 0 <= d < hi:
                        ok = True
                        break
                if not ok and k == 'v':
                    rep.bad('argument', rd.fmts[0].where(), 'an argument of %s is formatted from record offset %r, where the writer stores nothing' % (n, l))
                    return
    for o, sz, vals in ws:
        if vals and vals[0] == 'copy' and sz is not None and sz[1]:
            rep.n('string_copies')
            d, m = fix_align(Lin(o[0], dict(o[1])) + B), fix_align(Lin(sz[0], dict(sz[1])))
            if (d, m) not in spans:
                J = vals[2] if len(vals) > 2 else None
                rep.bad('argument', rd.fmts[0].where(), '%s copies %r bytes of a string to record offset %r, where the reader does not look for them (it reads %s)' % (
                    n, m, d - B, ', '.join('%r at %r' % (l, p - B) for p, l in spans)))
                return
    # the first string starts where the written part ends, the last ends at the
    # published extent
    if cur is not None and 's' in ks:
        end = fix_align(Lin(0, {('align', 8, cur.key()): 1}))
        if end != want and len(trunc) < ks.count('s'):
            rep.bad('argument', rd.fmts[0].where(), 'the strings of %s end at %r, the record at %r' % (n, cur, want))


def destroy_rule(rep, mod, readers):
    """objects captured in a record are destroyed once, after use"""
    rep.rule('destroy', 'a captured object with a destructor is destroyed exactly once on every path of the record function, after it was formatted')
    for tn, rd in readers.items():
        fn = rd.fn
        ds = {}
        for I in fn.calls():
            if I.callee in ('_ZN1w3thrD1Ev', '_ZN1w3movD1Ev', '_ZN1w3thrD2Ev', '_ZN1w3movD2Ev') and I.a and rd.from_rec(I.a[0]):
                ds[I.id] = I
        if not re.search(r'w_shape__\w*__(thr|mov|thr_sv|cstr_mov)E', tn):
            continue
        fms = {I.id for I in fn.calls() if I.callee and FMT.match(I.callee)}
        rep.n('destroyed_captures')

        def step(s, I, env):
            if I.id in fms and s:
                return ('VIOLATION', 'a captured argument is formatted after it was destroyed')
            if I.id in ds:
                return min(s + 1, 2)
            return s

        def on_exit(s, T, env):
            if T.op == 'ret' and s != 1:
                return 'a captured argument is destroyed %s' % ('more than once' if s else 'never')
        v, st = simulate(fn, 0, step, on_exit)
        for t, I, path in v[:1]:
            rep.bad('destroy', I.where(), '%s in the record function of %s' % (t, re.search(r'w_shape__\w+', tn).group(0)[:40]))
    rep.need('destroyed_captures', 2)
