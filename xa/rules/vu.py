"""Helpers for rules that run on the value-numbering engine."""
import re
from ..ir import addr, fieldname, vcall, mem_ptr
from ..vn import VN, Rule, St, atom, single_sym
from ..lin import Lin
from ..sim import pathstr, Stop
from ..build import Broken

LOCK = re.compile(r'^(pthread_mutex_lock|_ZNSt5mutex4lockEv|pthread_mutex_trylock)$')
UNLOCK = re.compile(r'^(pthread_mutex_unlock|_ZNSt5mutex6unlockEv)$')
NOTIFY = re.compile(r'^_ZNSt18condition_variable10notify_(one|all)Ev$')
MTX_THROW = re.compile(r'^(_ZSt20__throw_system_errori|_ZNSt18condition_variable4waitE|_ZNSt11unique_lockISt5mutexE)')


def where(I):
    return I.where() if I is not None else '?'


def go(rep, rid, fn, rule, what=None, init=None, argvals=None, cap=30000, key=None):
    """run a rule over a function; report what it finds"""
    vn = VN(fn, rule, cap=cap, argvals=argvals)
    rule.vn = vn
    try:
        vn.run(init=init)
    except Stop as e:
        # undecided, unless a violation turns up here or elsewhere
        rep.stopped.append(str(e))
    seen = set()
    for text, I, path in vn.viol:
        k = (text, I.id)
        if k in seen:
            continue
        seen.add(k)
        rep.bad(rid, where(I), '%s (in %s); path %s' % (text, what or fn.short(), pathstr(path)), key)
    rep.n('states', vn.nstates)
    return vn


def sym_name(vn, a):
    """name of the field whose value the symbol stands for"""
    if a is None:
        return None
    while a[0] == 'o':
        a = a[1]
    if a[0] == 'm':
        return vn.names.get((a[1], a[2]))
    if a[0] == 'v':
        I = vn.fn.inst.get(a[1])
        if I is not None and I.op == 'load':
            return fieldname(vn.fn, I.a[0], I)
    if a[0] == 'h':
        if isinstance(a[2], tuple):
            return vn.names.get(a[2])
    return None


def term_name(vn, l):
    if len(l.t) != 1 or l.c != 0:
        return None
    return sym_name(vn, single_sym(l))


def fname(I):
    p = mem_ptr(I)
    return fieldname(I.fn, p, I) if p is not None else None


def ends(n, *sfx):
    return bool(n) and any(n == s or n.endswith('.' + s) or n.endswith('::' + s) for s in sfx)


def rets(fn):
    return [I for I in fn.all() if I.op == 'ret']


def slot_of(mod, name, base='_ZTSN3xtr17storage_interfaceE'):
    c = mod.classes.get(base)
    for nm, i, ln in (c or {'virt': ()})['virt']:
        if nm == name:
            return i
    return None


def method(mod, vt, name, base='_ZTSN3xtr17storage_interfaceE'):
    """function a class (by vtable) uses for a virtual method"""
    i = slot_of(mod, name, base)
    v = mod.vts.get(vt)
    if i is None or not v or i + 2 >= len(v) or v[i + 2] not in mod.fns:
        return None
    return mod.fn(v[i + 2])


def storages(mod):
    """vtables of the concrete storage classes"""
    n = None
    r = []
    for k, v in sorted(mod.vts.items()):
        i = slot_of(mod, 'submit_buffer')
        if i is None or 'storage' not in k or len(v) < 8:
            continue
        if '__cxa_pure_virtual' in v:
            continue
        r.append(k)
    return r


def callee_field(vn, I, S):
    """name of the member a called function pointer was loaded from"""
    c = I.d.get('callee')
    if isinstance(c, int):
        L = vn.fn.inst.get(c)
        if L is not None and L.op == 'load':
            return fieldname(vn.fn, L.a[0], L)
        if L is not None and L.op == 'phi':
            for x, _ in L.d['in']:
                J = vn.fn.inst.get(x) if isinstance(x, int) else None
                if J is not None and J.op == 'load':
                    return fieldname(vn.fn, J.a[0], J)
    return None


def is_errno(vn, a):
    """symbol a is a value of errno"""
    while a[0] == 'o':
        a = a[1]
    if a[0] != 'v':
        return False
    L = vn.fn.inst.get(a[1])
    if L is None or L.op != 'load' or not isinstance(L.a[0], int):
        return False
    C = vn.fn.inst.get(L.a[0])
    return C is not None and C.is_call and C.callee == '__errno_location'


def errno_not(vn, S, n):
    """errno is known to differ from n"""
    for k, (lo, hi, ex) in S.facts.items():
        if len(k) == 1 and (lo > n or hi < n or n in ex):
            (a, c), = k
            if c == 1 and is_errno(vn, a):
                return True
    return False


class Track(Rule):
    """Quantities followed through loops.  S.user = (state, tracks); a track is
    a set of candidates (variable, rest): the quantity equals the current value
    of the loop variable (or nothing) plus rest.  At a loop header a quantity is
    re-expressed through the variables of that loop."""
    prefer_phi = False
    scales = ()         # sizes of elements that a loop may count
    slots = ()          # suffixes of names of fields that may carry a quantity

    def q(self, S, i):
        r = []
        for p, k in S.user[1][i]:
            rest = Lin(k[0], dict(k[1]))
            if p is None:
                r.append(rest)
            elif isinstance(p, tuple) and p[0] == '*':
                if p[1] in S.vals:
                    r.append(S.vals[p[1]].scale(p[2]) + rest)
            elif isinstance(p, tuple):
                if p in S.mem:
                    r.append(S.mem[p] + rest)
            elif p in S.vals:
                r.append(S.vals[p] + rest)
        return r

    def pins(self, S):
        return {p if isinstance(p, int) else p[1] for t in S.user[1] for p, k in t
                if isinstance(p, int) or isinstance(p, tuple) and p[0] == '*'}

    def qeq(self, S, i, l):
        return any(S.eq(x, l) for x in self.q(S, i))

    def qset(self, S, i, *ls):
        t = list(S.user[1])
        t[i] = frozenset((None, l.key()) for l in ls)
        S.user = (S.user[0], tuple(t))

    def state(self, S, st):
        S.user = (st, S.user[1])

    @staticmethod
    def track(*ls):
        return tuple(frozenset([(None, l.key())]) for l in ls)

    def stable(self, B, l):
        ld = self.vn.loopdefs[B]

        def bad(x):
            return isinstance(x, tuple) and len(x) > 1 and (x[0] == 'h' and x[1] == B.id or x[0] in ('v', 'new') and x[1] in ld)
        return not any(self.vn.deep(a, bad) for a in l.t)

    def header(self, S, B):
        t = []
        for i in range(len(S.user[1])):
            # still expressed through a variable of an outer loop
            c = {(p, k) for p, k in S.user[1][i] if (isinstance(p, int) and p not in self.vn.loopdefs[B] or
                                                     isinstance(p, tuple) and p[0] == '*' and p[1] not in self.vn.loopdefs[B]) and self.stable(B, Lin(k[0], dict(k[1])))}
            for l in self.q(S, i):
                if self.stable(B, l):
                    c.add((None, l.key()))
                for P in self.vn.phis[B]:
                    v = S.vals.get(P.id)
                    if v is not None and P.ty != 'i1':
                        r = l - v
                        if self.stable(B, r):
                            c.add((P.id, r.key()))
                        for n in self.scales if P.ty != 'ptr' else ():
                            r = l - v.scale(n)
                            if self.stable(B, r):
                                c.add((('*', P.id, n), r.key()))
                for k, v in S.mem.items():
                    if self.slots and ends(self.vn.names.get(k) or '', *self.slots):
                        r = l - v
                        if self.stable(B, r):
                            c.add((k, r.key()))
            sc = {x for x in c if isinstance(x[0], tuple) and x[0][0] == '*'}
            if self.prefer_phi:
                # a pointer that walks
                sc = sc or {x for x in c if isinstance(x[0], int) and x[0] in self.vn.fn.inst and self.vn.fn.inst[x[0]].ty == 'ptr' and not x[1][1]}
            t.append(frozenset(sc or c))
        S.user = (self.at_loop(S, B, S.user[0]), tuple(t))

    def at_loop(self, S, B, st):
        return st


def quot(S, l):
    """bounds of l, using that sizes computed by a division (of the distance of
    two pointers by the size of an element) are exact"""
    from math import gcd
    qs = set()
    for k in S.facts:
        for a, _ in k:
            if a[0] in ('sdiv', 'udiv', 'ashr', 'lshr'):
                qs.add(a)
    for a in l.t:
        if a[0] in ('sdiv', 'udiv', 'ashr', 'lshr'):
            qs.add(a)
    best = S.rng(l)[:2]

    def shrink(x):
        g = 0
        for c in x.t.values():
            g = gcd(g, c)
        if g > 1:
            lo, hi, _ = S.rng(Lin(0, {a: c // g for a, c in x.t.items()}))
            return lo * g + x.c, hi * g + x.c
        return S.rng(x)[:2]
    best = max(best[0], shrink(l)[0]), min(best[1], shrink(l)[1])
    for a in sorted(qs, key=str):
        num = Lin(a[1][0], dict(a[1][1]))
        d = Lin(a[2][0], dict(a[2][1])).const()
        if d is None:
            continue
        if a[0] in ('ashr', 'lshr'):
            d = 1 << d
        e = num - Lin(0, {a: d})        # == 0
        for x, c in sorted(e.t.items(), key=str):
            if c in (1, -1) and x in l.t:
                lo, hi = shrink(l - e.scale(l.t[x] * c))
                best = max(best[0], lo), min(best[1], hi)
    return best
