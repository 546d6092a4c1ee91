"""In-memory form of the flattened program and the helpers rules share."""
import json, re
from functools import lru_cache


class Inst:
    __slots__ = ('id', 'op', 'ty', 'a', 'bb', 'fn', 'd', 'idx')

    def __init__(self, d, fn, bb, idx):
        self.id = d['id']
        self.op = d['op']
        self.ty = d['ty']
        self.a = d.get('a', [])
        self.d = d
        self.fn = fn
        self.bb = bb
        self.idx = idx

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return self.d.get(k)

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def callee(self):
        c = self.d.get('callee')
        if isinstance(c, dict) and c.get('k') == 'fn':
            return c['n']
        return None

    @property
    def is_call(self):
        return self.op in ('call', 'invoke')

    def where(self):
        l = self.d.get('loc')
        if not l:
            return self.fn.short()
        f, ln, _ = l[0]
        s = '%s:%d' % (relpath(f), ln)
        return s

    def loc_in(self, pred):
        for f, ln, nm in self.d.get('loc') or ():
            if pred(f, ln, nm):
                return True
        return False

    def __repr__(self):
        return '<%%%d %s>' % (self.id, self.op)


def relpath(f):
    for p in ('/repo/', '/verif/'):
        if f.startswith(p):
            return f[len(p):]
    return f


class Block:
    __slots__ = ('id', 'insts', 'fn', 'succs', 'preds')

    def __init__(self, id, fn):
        self.id = id
        self.fn = fn
        self.insts = []
        self.succs = []
        self.preds = []

    @property
    def term(self):
        return self.insts[-1]

    def __repr__(self):
        return '<bb%d>' % self.id


class Function:
    def __init__(self, d, mod):
        self.mod = mod
        self.name = d['n']
        self.dem = d['d']
        self.d = d
        self.sig = d.get('sig') or []
        self.args = d['args']
        self.argidx = {a['id']: i for i, a in enumerate(d['args'])}
        self.blocks = []
        self.bb = {}
        self.inst = {}
        for b in d['bb']:
            B = Block(b['id'], self)
            self.blocks.append(B)
            self.bb[B.id] = B
            for i, x in enumerate(b['i']):
                I = Inst(x, self, B, i)
                B.insts.append(I)
                self.inst[I.id] = I
        for B in self.blocks:
            seen = []
            for s in B.term.get('succ') or []:
                if s not in seen:
                    seen.append(s)
            B.succs = [self.bb[s] for s in seen]
            for s in B.succs:
                s.preds.append(B)
        self._dom = None
        self._users = None
        self._select_edges()

    def _select_edges(self):
        """a value chosen by the condition of the branch on whose edge it flows"""
        for B in self.blocks:
            t = B.term
            if t.op != 'br' or not t.a or not isinstance(t.a[0], int):
                continue
            ss = t.d.get('succ') or []
            if len(ss) != 2 or ss[0] == ss[1]:
                continue
            for k, s in enumerate(ss):
                for P in self.bb[s].insts:
                    if P.op != 'phi':
                        break
                    for q in P.d['in']:
                        while q[1] == B.id and isinstance(q[0], int):
                            J = self.inst.get(q[0])
                            if J is None or J.op != 'select' or J.a[0] != t.a[0]:
                                break
                            q[0] = J.a[1 + k]

    @property
    def entry(self):
        return self.blocks[0]

    def short(self):
        n = self.dem
        n = re.sub(r'\(.*$', '', n) if not n.startswith('_Z') else n
        return n if len(n) < 160 else n[:157] + '...'

    def all(self):
        for B in self.blocks:
            yield from B.insts

    def calls(self):
        for I in self.all():
            if I.is_call:
                yield I

    # --- dominators -------------------------------------------------------
    def _mkdom(self):
        order, seen = [], set()
        stack = [(self.entry, iter(self.entry.succs))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in b.preds:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x is not y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) is not new:
                    idom[b] = new
                    ch = True
        self._dom = (idom, num)

    def dominates(self, A, B):
        if self._dom is None:
            self._mkdom()
        idom, num = self._dom
        if B not in idom or A not in idom:
            return False
        while True:
            if A is B:
                return True
            n = idom[B]
            if n is B:
                return False
            B = n

    def inst_dominates(self, I, J):
        if I.bb is J.bb:
            return I.idx < J.idx
        return self.dominates(I.bb, J.bb)

    def reachable(self, start):
        seen = set()
        st = list(start)
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st += b.succs
        return seen

    def users(self, v):
        if self._users is None:
            u = {}
            for I in self.all():
                for x in operands(I):
                    if isinstance(x, int):
                        u.setdefault(x, []).append(I)
            self._users = u
        return self._users.get(v, [])


def operands(I):
    r = list(I.a)
    if I.op == 'phi':
        r += [x[0] for x in I.d['in']]
    if I.op == 'getelementptr':
        r += [x[0] for x in I.d.get('var') or []]
    c = I.d.get('callee')
    if isinstance(c, int):
        r.append(c)
    return r


def mangle_cls(n):
    return '_ZTSN' + ''.join('%d%s' % (len(c), c) for c in n.split('::')) + 'E'


class Module:
    def __init__(self, path):
        self.fns = {}
        self.classes = {}
        self.enums = {}
        self.vts = {}
        self.strs = {}
        self.tabs = {}
        self.itabs = {}
        self.cg = {}
        self.decls = {}
        with open(path) as f:
            for line in f:
                d = json.loads(line)
                t = d['t']
                if t == 'fn':
                    self.fns[d['n']] = d
                elif t == 'class':
                    n = d['n']
                    if not n.startswith('_ZTS') and '::' in n and '<' not in n:
                        n = mangle_cls(n)
                    if n not in self.classes or len(d['m']) > len(self.classes[n]['m']):
                        self.classes[n] = d
                elif t == 'enum':
                    self.enums[d['n']] = d
                elif t == 'vt':
                    self.vts[d['n']] = d['a']
                elif t == 'str':
                    self.strs[d['n']] = bytes.fromhex(d['s'])
                elif t == 'tab':
                    self.tabs[d['n']] = d['a']
                elif t == 'itab':
                    self.itabs[d['n']] = d['a']
                elif t == 'cg':
                    self.cg[d['n']] = d['c']
                elif t == 'decl':
                    self.decls[d['n']] = d
        self._fn = {}
        self._paths = {}

    def fn(self, name):
        if name not in self._fn:
            self._fn[name] = Function(self.fns[name], self)
        return self._fn[name]

    def dem(self, name):
        d = self.fns.get(name) or self.decls.get(name)
        return d['d'] if d else name

    def find(self, pred):
        return [self.fn(n) for n, d in self.fns.items() if pred(d)]

    def by_dem(self, rx):
        r = re.compile(rx)
        return self.find(lambda d: r.search(d['d']) and not d['n'].startswith('_ZZ'))     # not local classes and lambdas

    # --- class layout -----------------------------------------------------
    def path(self, cls, off):
        """[(member name, member type, owning class, offset within member)] from
        the outermost member to the innermost at byte offset off of cls."""
        key = (cls, off)
        if key in self._paths:
            return self._paths[key]
        res = []
        cur, o = cls, off
        guard = 0
        while guard < 24:
            guard += 1
            c = self.classes.get(cur)
            if not c:
                break
            best = None
            for nm, mo, mt, ms in c['m']:
                if mo <= o < mo + max(ms, 1):
                    # prefer the largest offset, then non-empty members
                    if best is None or (mo, ms) > (best[1], best[3]) or (nm != '<base>' and best[0] == '<base>' and ms >= best[3] and mo >= best[1]):
                        if ms > 1 or best is None or not (best[3] > 1 and best[1] == mo):
                            best = (nm, mo, mt, ms)
            if best is None:
                break
            nm, mo, mt, ms = best
            res.append((nm, mt, cur, o - mo))
            cur, o = mt, o - mo
            if mt.endswith('[]'):
                break
        self._paths[key] = res
        return res

    def field(self, cls, off):
        p = self.path(cls, off)
        return '.'.join(n for n, _, _, _ in p if n != '<base>')

    def member(self, cls, name):
        """offset, type, size of a (possibly inherited) direct member"""
        c = self.classes.get(cls)
        if not c:
            return None
        for nm, mo, mt, ms in c['m']:
            if nm == name:
                return mo, mt, ms
        for nm, mo, mt, ms in c['m']:
            if nm == '<base>':
                r = self.member(mt, name)
                if r:
                    return mo + r[0], r[1], r[2]
        return None

    def virt_slot(self, cls, idx):
        c = self.classes.get(cls)
        seen = set()
        while c:
            for nm, i, ln in c['virt']:
                if i == idx:
                    return nm
            nxt = None
            for nm, mo, mt, ms in c['m']:
                if nm == '<base>' and mo == 0 and mt not in seen:
                    nxt = mt
                    seen.add(mt)
                    break
            c = self.classes.get(nxt) if nxt else None
        return None


def strip_ptr(t):
    """class identifier a pointer/reference type points at"""
    t = t.strip()
    while t.endswith('*') or t.endswith('&'):
        t = t[:-1]
    while t.startswith('const ') or t.startswith('volatile '):
        t = t.split(' ', 1)[1]
    return t


# ---------------------------------------------------------------- addresses
class Addr:
    """root + constant offset + variable terms; root is a value id or ('g', name)"""
    __slots__ = ('root', 'off', 'var')

    def __init__(self, root, off, var):
        self.root = root
        self.off = off
        self.var = var

    def key(self):
        return (self.root, self.off, tuple(sorted(map(str, self.var))))


def addr(fn, v):
    off, var = 0, []
    n = 0
    while n < 200:
        n += 1
        if isinstance(v, dict):
            if v.get('k') == 'goff':
                off += v['o']
                v = v['b']
                continue
            if v.get('k') in ('g', 'fn'):
                return Addr(('g', v['n']), off, var)
            if v.get('k') == 'null':
                return Addr(('null',), off, var)
            return Addr(('c', json.dumps(v, sort_keys=True)), off, var)
        I = fn.inst.get(v)
        if I is not None and I.op == 'getelementptr' and 'off' in I.d:
            off += I.d['off']
            var = var + [(json.dumps(x[0]) if not isinstance(x[0], int) else x[0], x[1]) for x in I.d['var']]
            v = I.a[0]
            continue
        if I is not None and I.op in ('bitcast', 'addrspacecast', 'freeze'):
            v = I.a[0]
            continue
        if I is not None and I.is_call and I.callee in ('llvm.launder.invariant.group.p0', 'llvm.strip.invariant.group.p0'):
            v = I.a[0]
            continue
        return Addr(v, off, var)
    return Addr(v, off, var)


def pointee(fn, v, depth=0):
    """class identifier of the object v points at, if known, with byte offset:
    (cls, off) -- off relative to start of cls; None if unknown."""
    if depth > 12:
        return None
    a = addr(fn, v)
    if isinstance(a.root, tuple):
        return None
    r = a.root
    c = None
    if r in fn.argidx:
        i = fn.argidx[r]
        c = argtype(fn, i)
    else:
        I = fn.inst.get(r)
        if I is None:
            return None
        if I.op == 'alloca':
            m = re.match(r'%?"?(?:class|struct|union)\.([^"]*)"?$', I.d['aty'])
            if m:
                c = class_by_llvm(fn.mod, m.group(1))
        elif I.op == 'load':
            t = loadtype(fn, I, depth + 1)
            if t and t.endswith('*') or t and t.endswith('&'):
                c = strip_one(t)
        elif I.op == 'phi':
            cs = set()
            for x, _ in I.d['in']:
                if isinstance(x, dict):
                    continue
                if x == r:
                    continue
                ax = addr(fn, x)
                if ax.root == r:
                    continue
                p = pointee(fn, x, depth + 3)
                cs.add(p)
            if len(cs) == 1:
                p = cs.pop()
                if p:
                    return wrap(fn, p, a)
            return None
        elif I.op == 'select':
            ps = {pointee(fn, x, depth + 3) for x in I.a[1:] if isinstance(x, int)}
            if len(ps) == 1:
                p = ps.pop()
                if p:
                    return wrap(fn, p, a)
            return None
    if c is None:
        return None
    return wrap(fn, (c, 0), a)


def wrap(fn, p, a):
    c, o = p
    o += a.off
    cl = fn.mod.classes.get(c)
    # pointer arithmetic over an array of c (vector element): reduce modulo size
    if cl and cl['size'] and (a.var or o >= cl['size'] or o < 0):
        if all(isinstance(s, int) and s % cl['size'] == 0 for _, s in a.var):
            o %= cl['size']
        elif a.var:
            return (c, None)
    return (c, o)


def strip_one(t):
    t = t[:-1].strip()
    while t.startswith('const ') or t.startswith('volatile '):
        t = t.split(' ', 1)[1]
    return t


def argtype(fn, i):
    s = fn.sig
    if not s:
        return None
    # sig[0] is the return type; sret shifts
    j = i + 1
    if fn.args and fn.args[0].get('sret'):
        j -= 1
        if j == 0:
            return strip_ptr(s[0])
    # only exact when no argument was split or dropped
    if j < len(s) and (len(s) - 1) >= i:
        t = s[j]
        if t.endswith('*') or t.endswith('&'):
            return strip_one(t)
        if fn.args[i]['ty'] == 'ptr':
            return t
    return None


_llvmcache = {}


def class_by_llvm(mod, nm):
    nm = re.sub(r'\.\d+$', '', nm)
    k = (id(mod), nm)
    if k in _llvmcache:
        return _llvmcache[k]
    res = None
    comps = nm.split('::')
    if '<' not in nm:
        mang = '_ZTSN' + ''.join('%d%s' % (len(c), c) for c in comps) + 'E' if len(comps) > 1 else '_ZTS%d%s' % (len(nm), nm)
        if mang in mod.classes:
            res = mang
    if res is None:
        base = comps[-1]
        cands = [n for n, d in mod.classes.items() if d['d'] == base or d['d'].split('<')[0] == base]
        if len(cands) == 1:
            res = cands[0]
    _llvmcache[k] = res
    return res


def loadtype(fn, I, depth=0):
    """declared type of the memory slot loaded/stored by I"""
    p = pointee(fn, I.a[0] if I.op == 'load' else I.a[-1], depth)
    if p and p[1] is not None:
        path = fn.mod.path(p[0], p[1])
        if path:
            return path[-1][1]
    t = I.d.get('tbaa')
    if t and t[0].startswith('_ZTS'):
        path = fn.mod.path(t[0], t[1])
        if path:
            return path[-1][1]
    return None


def fieldname(fn, ptr, I=None):
    """'Class::a.b.c' of the memory a pointer designates, or None"""
    p = pointee(fn, ptr)
    if p is None or p[1] is None:
        if I is not None and I.d.get('tbaa') and I.d['tbaa'][0].startswith('_ZTSN3xtr'):
            t = I.d['tbaa']
            return shortcls(t[0]) + '::' + fn.mod.field(t[0], t[1])
        return None
    f = fn.mod.field(p[0], p[1])
    return shortcls(p[0]) + '::' + f


def shortcls(c):
    m = re.match(r'_ZTSN3xtr(.*)E$', c)
    if m:
        s = m.group(1)
        out = []
        while s:
            mm = re.match(r'(\d+)', s)
            if not mm:
                out.append(s)
                break
            n = int(mm.group(1))
            s = s[len(mm.group(1)):]
            out.append(s[:n])
            s = s[n:]
        return '::'.join(x for x in out)
    return c


def mem_ptr(I):
    if I.op == 'load':
        return I.a[0]
    if I.op == 'store':
        return I.a[1]
    if I.op in ('atomicrmw', 'cmpxchg'):
        return I.a[0]
    return None


# ------------------------------------------------------------ virtual calls
def vcall(I):
    """(class, method) for a virtual call, else None"""
    if not I.is_call:
        return None
    c = I.d.get('callee')
    if not isinstance(c, int):
        return None
    fn = I.fn
    L = fn.inst.get(c)
    if L is None or L.op != 'load':
        return None
    a = addr(fn, L.a[0])
    if isinstance(a.root, tuple):
        return None
    V = fn.inst.get(a.root)
    if V is None or V.op not in ('load', 'phi'):
        return None
    if a.var or a.off % 8:
        return None
    idx = a.off // 8
    cls = None
    for u in fn.users(V.id):
        if u.is_call and u.callee == 'llvm.type.test' and u.a[0] == V.id:
            md = u.a[1]
            if isinstance(md, dict) and md.get('s'):
                cls = md['s']
    if cls is None and V.op == 'load':
        p = pointee(fn, V.a[0])
        if p:
            cls = p[0]
    if cls is None:
        return None
    m = fn.mod.virt_slot(cls, idx)
    return (shortcls(cls), m or '#%d' % idx)


# ------------------------------------------------------------------ printing
def vs(fn, v):
    if isinstance(v, int):
        if v in fn.argidx:
            return '%%a%d' % fn.argidx[v]
        return '%%%d' % v
    k = v.get('k')
    if k == 'i':
        return str(v.get('v', v.get('s')))
    if k in ('g', 'fn'):
        return '@' + v['n']
    if k == 'goff':
        return '(%s+%d)' % (vs(fn, v['b']), v['o'])
    return k + (':' + str(v.get('s', v.get('op', ''))) if k in ('asm', 'ce', 'md', 'fp') else '')


def show(fn, out=None):
    import sys
    out = out or sys.stdout
    print('; %s' % fn.dem, file=out)
    print('define %s(%s) sig=%s' % (fn.name, ', '.join('%%a%d:%s' % (i, a['ty']) for i, a in enumerate(fn.args)), fn.sig), file=out)
    for B in fn.blocks:
        print('bb%d:   ; preds %s' % (B.id, [p.id for p in B.preds]), file=out)
        for I in B.insts:
            print('  ' + showi(I), file=out)


def showi(I):
    fn = I.fn
    s = '%%%d = %s %s ' % (I.id, I.op, I.ty) if I.ty != 'void' else I.op + ' '
    if I.op == 'phi':
        s += ', '.join('[%s,bb%d]' % (vs(fn, v), b) for v, b in I.d['in'])
    elif I.is_call:
        c = I.callee
        vc = vcall(I)
        nm = fn.mod.dem(c) if c else ('VIRT %s::%s' % vc if vc else '*' + vs(fn, I.d['callee']))
        s += nm[:140] + '(' + ', '.join(vs(fn, x) for x in I.a) + ')'
        if I.op == 'invoke':
            s += ' to bb%d unwind bb%d' % (I.d['normal'], I.d['unwind'])
    elif I.op == 'getelementptr':
        s += '%s + %s' % (vs(fn, I.a[0]), I.d.get('off')) + ''.join(' + %s*%s' % (vs(fn, x), sc) for x, sc in I.d.get('var') or [])
    elif I.op == 'br':
        s += ', '.join(vs(fn, x) for x in I.a) + ' -> ' + str(I.d['succ'])
    elif I.op == 'switch':
        s += vs(fn, I.a[0]) + ' ' + str(I.d['cases']) + ' def %d' % I.d['def']
    else:
        s += (I.d.get('pred') or '') + (I.d.get('rmw') or '') + ' ' + ', '.join(vs(fn, x) for x in I.a)
        if I.op == 'alloca':
            s += I.d['aty']
    if I.d.get('ord'):
        s += ' ' + I.d['ord']
    p = mem_ptr(I)
    if p is not None:
        f = fieldname(fn, p, I)
        if f:
            s += '   ; ' + f
    if I.d.get('loc'):
        s += '    !' + I.where()
    return s
