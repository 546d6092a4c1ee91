"""C06 sanitizing, C07 level gating."""
import re, subprocess
from ..ir import addr, operands, fieldname, mem_ptr
from ..lin import Lin, Linear
from ..sim import simulate, cint, const_of, norm, uns, width, val_width, pathstr
from ..build import Broken
from ..producer import facts_of_edge, irole
from ..pathval import loop_headers
from .frame import FMT


# ------------------------------------------------------------ constant values
def cval(fn, env, v, depth=0, mem=None):
    """constant an SSA value has under env, through arithmetic and reads of
    constant tables; None if it has none"""
    c = const_of(fn, env, v)
    if c is not None or not isinstance(v, int) or depth > 40:
        return c
    I = fn.inst.get(v)
    if I is None:
        return None
    op = I.op
    w = width(I.ty)
    if op in ('freeze', 'bitcast'):
        return cval(fn, env, I.a[0], depth + 1, mem)
    if op in ('zext', 'sext', 'trunc'):
        c = cval(fn, env, I.a[0], depth + 1, mem)
        if c is None:
            return None
        w0 = val_width(fn, I.a[0])
        if op == 'zext':
            return norm(uns(c, w0), w) if w > 1 else c & 1
        if op == 'sext' and w0 == 1:
            return -1 if c & 1 else 0
        return norm(c, w) if w > 1 else c & 1
    if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
        a, b = cval(fn, env, I.a[0], depth + 1, mem), cval(fn, env, I.a[1], depth + 1, mem)
        if a is None or b is None:
            return None
        ua, ub = uns(a, w), uns(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
            return None
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
             'xor': lambda: a ^ b, 'shl': lambda: ua << ub if ub < 128 else 0, 'lshr': lambda: ua >> ub, 'ashr': lambda: a >> ub,
             'udiv': lambda: ua // ub, 'urem': lambda: ua % ub,
             'sdiv': lambda: int(a / b), 'srem': lambda: a - int(a / b) * b}[op]()
        return norm(r, w) if w > 1 else r & 1
    if op == 'icmp':
        a, b = cval(fn, env, I.a[0], depth + 1, mem), cval(fn, env, I.a[1], depth + 1, mem)
        if a is None or b is None:
            return None
        p = I.d['pred']
        if p[0] == 'u':
            w0 = val_width(fn, I.a[0]) or val_width(fn, I.a[1])
            a, b = uns(a, w0), uns(b, w0)
        return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p if p in ('eq', 'ne') else p[1:]])
    if op == 'select':
        c = cval(fn, env, I.a[0], depth + 1, mem)
        return None if c is None else cval(fn, env, I.a[1] if c & 1 else I.a[2], depth + 1, mem)
    if op == 'load':
        a = addr(fn, I.a[0])
        if isinstance(a.root, tuple) and a.root[0] == 'g':
            o = a.off
            for x, s in a.var:
                k = cval(fn, env, x, depth + 1, mem) if isinstance(x, int) else None
                if k is None:
                    return None
                o += k * s
            n = a.root[1]
            if n in fn.mod.strs and w == 8 and 0 <= o < len(fn.mod.strs[n]):
                return norm(fn.mod.strs[n][o], 8)
            if n in fn.mod.itabs:
                t = fn.mod.itabs[n]
                sz = w // 8
                if o % sz == 0 and 0 <= o // sz < len(t):
                    return norm(int(t[o // sz]), w)
        k = slot(fn, env, I.a[0], mem)
        if k is not None:
            return mem.get(k + (I.d.get('sz'),))
    if I.is_call and (I.callee or '').startswith('llvm.'):
        m = re.match(r'llvm\.(u|s)(min|max)\.', I.callee)
        if m:
            a, b = cval(fn, env, I.a[0], depth + 1, mem), cval(fn, env, I.a[1], depth + 1, mem)
            if a is None or b is None:
                return None
            key = (lambda x: uns(x, w)) if m.group(1) == 'u' else (lambda x: x)
            return (min if m.group(2) == 'min' else max)(a, b, key=key)
    return None


def slot(fn, env, p, mem):
    """(stack object, constant offset) p designates, or None"""
    a = addr(fn, p)
    if mem is None or not isinstance(a.root, int) or a.root not in fn.inst or fn.inst[a.root].op != 'alloca':
        return None
    o = a.off
    for x, s in a.var:
        k = cval(fn, env, x, 1, mem) if isinstance(x, int) else None
        if k is None:
            return None
        o += k * s
    return (a.root, o)


# ------------------------------------------------------------------ C06
SAN_HEAD = r'''
#include <xtr/logger.hpp>
extern "C" void w_put(char) noexcept;
namespace w {
struct it {
  using difference_type = std::ptrdiff_t; using value_type = void; using pointer = void; using reference = void;
  using iterator_category = std::output_iterator_tag;
  struct pr { void operator=(char c) const { w_put(c); } };
  pr operator*() const { return {}; }
  it& operator++() { return *this; }
  it operator++(int) { return *this; }
};
struct ctx { it out() { return {}; } void advance_to(it) {} };
}
'''


def split_top(s):
    r, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            r.append(cur.strip())
            cur = ''
        else:
            cur += ch
    r.append(cur.strip())
    return r


def demangle(names):
    p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
    if p.returncode:
        raise Broken('llvm-cxxfilt-18 failed')
    return dict(zip(names, p.stdout.splitlines()))


def fmt_types(dem):
    """types of the values handed to a format_to call"""
    m = re.search(r'\bv?format_to<', dem)
    if not m:
        return None
    d, i = 1, m.end()
    while d and i < len(dem):
        d += dem[i] in '<('
        d -= dem[i] in '>)'
        i += 1
    ts = split_top(dem[m.end():i - 1])[1:]
    while ts and re.match(r'^-?\d+$|^\(.*\)\d+$|^void$', ts[-1]):
        ts.pop()
    return ts


RAW = re.compile(r'^(const )?(char|signed char|unsigned char)( const)?\s*\*|^(const )?(char|unsigned char)( const)?\s*\(?&?\)?\s*\[|^std::(__cxx11::)?basic_string(_view)?<')


def bare(t):
    t = re.sub(r'\s*&+$', '', t).strip()
    t = re.sub(r'\s*\bconst$', '', t).strip()
    return re.sub(r'^const\s+(?!.*\*)', '', t)


def expected(c):
    c &= 255
    if 32 <= c <= 126 and c != 92:
        return (c,)
    return tuple(b'\\x%02X' % c)


class Cursor:
    """loop phis as functions of the iteration number n"""

    def __init__(self, fn):
        self.fn = fn
        self.L = Linear(fn)
        self.subst = {}
        for H in loop_headers(fn):
            for I in H.insts:
                if I.op != 'phi':
                    break
                outs = [x for x, b in I.d['in'] if not fn.dominates(H, fn.bb[b])]
                ins = [x for x, b in I.d['in'] if fn.dominates(H, fn.bb[b])]
                ol = {self.L.lin(x).key() for x in outs}
                il = {(self.L.lin(x) - Lin(0, {('v', I.id): 1})).key() for x in ins}
                if len(ol) == 1 and len(il) == 1:
                    k = ol.pop()
                    s = il.pop()
                    if not s[1]:
                        self.subst[I.id] = (Lin(k[0], dict(k[1])), s[0], H)

    def nform(self, l, H):
        """l with the phis of header H replaced by init + step * n"""
        r = Lin(l.c)
        for a, k in l.t.items():
            if a[0] == 'v' and a[1] in self.subst and self.subst[a[1]][2] is H:
                i, s, _ = self.subst[a[1]]
                r = r + i.scale(k) + Lin(0, {('n',): s * k})
            else:
                r = r + Lin(0, {a: k})
        return r


def store_ty(fn, I):
    w = val_width(fn, I.a[0])
    return 'i%d' % w if w else None


def san_rule(rep, fn, tname):
    """the formatter of a string argument writes, per character, exactly what is
    expected, for every character up to the end of the string"""
    C = Cursor(fn)
    puts = [I for I in fn.calls() if I.callee == 'w_put']
    for I in fn.calls():
        if I.callee not in ('w_put', 'strlen') and not (I.callee or '').startswith('llvm.'):
            raise Broken('formatter of %s calls %s' % (tname, fn.mod.dem(I.callee or '?')))
    if not puts:
        rep.bad('sanitize', fn.short(), 'the formatter of %s writes nothing' % tname)
        return
    # where the characters are and how many there are, according to the argument
    data, lens = [], []
    for I in fn.all():
        if I.op == 'load':
            a = addr(fn, I.a[0])
            if a.root == fn.args[0]['id'] and not a.var:
                (data if I.ty == 'ptr' else lens).append(I)
    lens += [I for I in fn.calls() if I.callee == 'strlen']
    counted = any(I.op == 'load' for I in lens)
    if not data:
        raise Broken('no string in ' + tname)
    D = {C.L.lin(I.id).key() for I in data}
    if len(D) != 1:
        D = {C.L.lin(data[0].id).key()}
    Dk = D.pop()
    D = Lin(Dk[0], dict(Dk[1]))
    ll = [C.L.lin(I.id) for I in lens]
    chars = []
    for I in fn.all():
        if I.op == 'load' and width(I.ty) == 8:
            a = addr(fn, I.a[0])
            if not (isinstance(a.root, tuple) and a.root[0] == 'g') and not (a.root in fn.inst and fn.inst[a.root].op == 'alloca'):
                chars.append(I)
    if not chars:
        raise Broken('no character is read by the formatter of ' + tname)
    hs = set()
    for I in chars:
        l = C.L.lin(I.a[0])
        ps = [a[1] for a in l.t if a[0] == 'v' and a[1] in C.subst]
        for p in ps:
            hs.add(C.subst[p][2])
    if len(hs) != 1:
        raise Broken('formatter of %s: no single loop over the characters' % tname)
    H = hs.pop()
    n1 = Lin(0, {('n',): 1})
    ahead = {}
    for I in chars:
        k = (C.nform(C.L.lin(I.a[0]), H) - D - n1).const()
        inloop = fn.dominates(H, I.bb)
        if k is None and not inloop:
            k = (C.L.lin(I.a[0]) - D).const()
        if k is None or k not in (0, 1):
            rep.bad('sanitize', I.where(), 'the formatter of %s does not read the characters one after the other from the start (position %r)' % (tname, C.nform(C.L.lin(I.a[0]), H) - D))
            return
        ahead[I.id] = k
    pset = {I.id for I in puts}

    class P:
        pass
    P = P()
    P.fn = fn
    P.L = C.L

    def fac(l, inloop):
        return C.nform(l, H) if inloop else l
    for c in range(256):
        cc = norm(c, 8)
        want = expected(c)
        pins = {I.id: ('=', cc) for I in chars}
        if c == 0 and not counted and any(I.callee == 'strlen' for I in lens if I.is_call):
            continue

        def step(s, I, env):
            em, end, it, mem = s
            if I.op == 'store' and width(store_ty(fn, I)) == 8:
                k = slot(fn, env, I.a[1], {})
                if k is not None:
                    d = dict(mem)
                    x = cval(fn, env, I.a[0], 0, d)
                    d[k + (I.d.get('sz'),)] = x
                    return (em, end, it, frozenset((y for y in d.items() if y[1] is not None)))
            if I.id in pset:
                if end:
                    return ('VIOLATION', 'writes past the end of the string')
                x = cval(fn, env, I.a[0], 0, dict(mem))
                if x is None:
                    raise Broken('cannot evaluate what %s writes' % I.where())
                em = em + (x & 255,)
                if em != want[:len(em)]:
                    return ('VIOLATION', 'character 0x%02X is written as %r, not %r' % (c, bytes(em).decode('latin1'), bytes(want).decode('latin1')))
                return (em, end, it, mem)
            if I.op == 'ret':
                if not end and not (c == 0 and not counted and em == ()):
                    return ('VIOLATION', 'stops before the end of the string after a character 0x%02X' % c)
                if em not in ((), want):
                    return ('VIOLATION', 'character 0x%02X is written as %r, not %r' % (c, bytes(em).decode('latin1'), bytes(want).decode('latin1')))
            return s

        def on_edge(s, B, S, env):
            em, end, it, mem = s
            if S is H:
                for p in C.subst:
                    if C.subst[p][2] is H:
                        env.pop(p, None)
            t = B.term
            if t.op == 'br' and len(t.d['succ']) == 2 and t.d['succ'][0] != t.d['succ'][1]:
                pol = 1 if S.id == t.d['succ'][0] else 0
                np_ = (n1 if it else Lin(0)) + Lin(1 if em else 0)
                for kind, l in facts_of_edge(P, t.a[0], pol):
                    l = fac(l, it)
                    for x in ll:
                        d = np_ - x
                        if kind == 'eq' and (l == d or l == d.scale(-1)) or kind == 'ge' and l == d:
                            end = True
            if S is H:
                if it and em != want:
                    return ('VIOLATION', 'character 0x%02X is written as %r, not %r' % (c, bytes(em).decode('latin1'), bytes(want).decode('latin1')))
                if c == 0 and not counted and it:
                    return ('VIOLATION', 'reads past the terminator of a string')
                return ((), False, 1, frozenset())
            return (em, end, it, mem)
        v, st = simulate(fn, ((), False, 0, frozenset()), step, on_edge=on_edge, pins=pins)
        rep.n('character_cases')
        for t, I, path in v[:1]:
            rep.bad('sanitize', I.where(), 'formatter of %s %s' % (tname, t) if not t.startswith('character') else '%s by the formatter of %s' % (t, tname))
            return


def c06(ctx, rep):
    import gen
    rep.rule('routing', 'in every record function each string argument reaches fmt only as a type whose formatter was checked by [sanitize]; no other argument is a bare string')
    rep.rule('sanitize', 'per character value 0..255 (constant propagation through one pass of the formatter loop) the characters written are the expected ones; characters are read in order from the first to the last')
    mod = ctx.shapes()
    kinds = {n: k for n, _, _, _, k in gen.SHAPES}
    calls = []
    for n in sorted(mod.fns):
        m = re.search(r'w_shape__(?:TRY_)?(LOG\w*?)__(\w+?)E', n) if '11trampoline' in n else None
        if not m:
            continue
        shape = max((s for s in kinds if m.group(2) == s or m.group(2).startswith(s)), key=len, default=None)
        fn = mod.fn(n)
        fm = [I for I in fn.calls() if I.callee and FMT.match(I.callee)]
        if not fm:
            raise Broken('no format call in ' + n)
        for I in fm:
            calls.append((shape, m.group(1), I))
    dem = demangle(sorted({I.callee for _, _, I in calls}))
    types = set()
    for shape, macro, I in calls:
        ts = fmt_types(dem[I.callee])
        ks = kinds[shape]
        if ts is None or len(ts) != 3 + len(ks):
            raise Broken('format call in the record function of %s is not understood: %s' % (shape, dem[I.callee][:300]))
        for k, t in zip(ks, ts[3:]):
            rep.n('format_arguments')
            b = bare(t)
            if RAW.match(b):
                rep.bad('routing', I.where(), 'a string argument (log statement %s/%s) is formatted as %s, without sanitizing' % (macro, shape, re.sub(r'<.*', '<...>', b)))
            elif k in 'snm':
                types.add(b)
    if rep.viol:
        return
    tl = sorted(types)
    src = SAN_HEAD + '\n'.join(
        'extern "C" void w_san%d(const %s& r) { w::ctx c; fmt::formatter<%s> f; f.format(r, c); }' % (i, t, t) for i, t in enumerate(tl))
    bc = ctx.compile('w_san', [ctx.wsrc('san', src)])
    sm = ctx.module('san', bc, keep='^w_', noinline=['^_ZNK?3fmt2v[0-9]+6detail'])
    for i, t in enumerate(tl):
        rep.n('string_types')
        san_rule(rep, sm.fn('w_san%d' % i), re.sub(r'std::basic_string_view<.*?>>', 'std::string_view>', t))
    rep.need('format_arguments', 50)
    rep.need('string_types', 1)
    rep.need('character_cases', 255)


# ------------------------------------------------------------------ C07
LV = '_ZTSN3xtr11log_level_tE'
SYNC = '_ZN3xtr4sink4syncEv'


def level_enum(mod):
    e = mod.enums.get(LV)
    if not e:
        raise Broken('log_level_t not found')
    d = dict((n, v) for n, v in e['m'])
    for n in ('none', 'fatal', 'error', 'warning', 'info', 'debug'):
        if n not in d:
            raise Broken('log level %s not found' % n)
    return d


def levels_mod(ctx, nd=False):
    import gen
    from .. import build
    key = 'lv_nd' if nd else 'lv'
    bc = ctx.compile('w_' + key, [ctx.wsrc(key, gen.levels_tu())], defs=['XTR_NDEBUG'] if nd else [])
    return ctx.module(key, bc + ctx.libbc(), keep='^w_|detail11trampoline', noinline=build.NOINLINE + ['^%s$' % SYNC])


IGN = re.compile(r'^llvm\.(lifetime|dbg|assume|type\.test|public\.type\.test|experimental\.noalias|x86\.sse2\.pause)')


def gate_rule(rep, mod, ndebug):
    lv = level_enum(mod)
    for n in sorted(mod.fns):
        m = re.match(r'w_lvl__(TRY_)?(LOGL?)(_\w+?)?__(\w*)$', n)
        if not m:
            continue
        fn = mod.fn(n)
        tr, kind, lname = bool(m.group(1)), m.group(2), m.group(4)
        rep.n('log_statements')
        sink = fn.args[0]['id']
        loads, others = [], []
        for I in fn.all():
            p = mem_ptr(I)
            if p is not None and (fieldname(fn, p, I) or '').startswith('sink::level_'):
                (loads if I.op == 'load' else others).append(I)
        for I in loads + others:
            if not I.d.get('ord'):
                rep.bad('atomic-level', I.where(), 'the level of a sink is read without an atomic operation by %s' % n)
        if others:
            rep.bad('gate', others[0].where(), '%s changes the level of the sink' % n)
        pubs = {I.id for I in fn.all() if I.op in ('store', 'atomicrmw', 'cmpxchg') and irole(I) == 'nwritten'}
        off = ndebug and kind == 'LOGL' and lname == 'debug'
        for cur, cv in sorted(lv.items(), key=lambda x: x[1]):
            on = kind == 'LOG' or cv >= lv[lname]
            if off:
                on = False
            fatal = kind == 'LOGL' and lname == 'fatal'
            rep.n('level_cases')

            def step(s, I, env):
                na, np_, sy = s
                if I.is_call:
                    c = I.callee
                    if c and IGN.match(c):
                        return s
                    if c == 'w_arg':
                        if not on:
                            return ('VIOLATION', 'evaluates its arguments although it is disabled')
                        if sy:
                            return ('VIOLATION', 'evaluates its arguments after syncing')
                        return (min(na + 1, 2), np_, sy)
                    if c == SYNC:
                        a = addr(fn, I.a[0])
                        if a.root != sink or a.off or a.var:
                            return ('VIOLATION', 'syncs something other than the sink that was logged to')
                        if on and not tr and np_ != 1:
                            return ('VIOLATION', 'syncs before the message was put in the queue')
                        return (na, np_, min(sy + 1, 2))
                    if c == 'abort':
                        if not fatal:
                            return ('VIOLATION', 'aborts')
                        if not sy:
                            return ('VIOLATION', 'aborts without a sync of the sink')
                        if on and na != 1:
                            return ('VIOLATION', 'aborts without having logged the message')
                        return None
                    if not on and not fatal:
                        return ('VIOLATION', 'calls %s although it is disabled' % (fn.mod.dem(c) if c else 'a function pointer'))
                if I.id in pubs:
                    if not on:
                        return ('VIOLATION', 'puts a message in the queue although it is disabled')
                    return (na, min(np_ + 1, 2), sy)
                if not on and I.op in ('store', 'atomicrmw', 'cmpxchg'):
                    a = addr(fn, mem_ptr(I))
                    if a.root == sink:
                        return ('VIOLATION', 'modifies the sink although it is disabled')
                return s

            def on_exit(s, T, env):
                na, np_, sy = s
                if T.op != 'ret':
                    return None
                if fatal:
                    return 'returns instead of terminating the program'
                if sy:
                    return 'syncs although the level is not fatal'
                if on and na != 1:
                    return 'evaluates its arguments %s' % ('more than once' if na else 'not at all')
                if on and not tr and np_ != 1:
                    return 'puts %s message in the queue' % ('more than one' if np_ else 'no')
                if on and tr and np_ > 1:
                    return 'puts more than one message in the queue'
            pins = {I.id: ('=', cv) for I in loads}
            v, st = simulate(fn, (0, 0, 0), step, on_exit, pins=pins)
            rep.n('path_states', st['states'])
            for t, I, path in v[:1]:
                what = 'XTR_%s%s%s(%s)' % (m.group(1) or '', kind, m.group(3) or '', lname or 'no level')
                rep.bad('fatal' if fatal else 'gate', I.where(), '%s on a sink with level %s%s %s; path %s' % (
                    what, cur, ' (XTR_NDEBUG)' if ndebug else '', t, pathstr(path)))
            if v:
                break


def style_rule(rep, mod):
    """the level handed to the style function is that of the statement"""
    lv = level_enum(mod)
    for n in sorted(mod.fns):
        m = re.search(r'w_lvl__(?:TRY_)?(LOGL?)(?:_\w+?)?__([a-z]*)E7', n) if '11trampoline' in n else None
        if not m:
            continue
        fn = mod.fn(n)
        want = lv[m.group(2)] if m.group(1) == 'LOGL' else lv['info']
        fm = [I for I in fn.calls() if I.callee and FMT.match(I.callee)]
        got = []
        for I in fn.calls():
            c = I.d.get('callee')
            if isinstance(c, int) and c in fn.inst and fn.inst[c].op == 'load' and \
                    (fieldname(fn, fn.inst[c].a[0], fn.inst[c]) or '').endswith('lstyle') and any(fn.inst_dominates(I, F) for F in fm):
                got.append(I)
        if not got or not fm:
            raise Broken('no level style call in ' + n[:80])
        for I in got:
            rep.n('style_calls')
            if cint(I.a[0]) != want:
                rep.bad('style', I.where(), 'a message logged at level %s is styled as level %s' % (m.group(2) or 'info', cint(I.a[0]) if cint(I.a[0]) is not None else '?'))


def c07(ctx, rep):
    rep.rule('gate', 'for every log macro, statement level and sink level: on every path the arguments are evaluated once and one message is queued if the sink level admits the statement, otherwise nothing is called and nothing is written')
    rep.rule('fatal', 'a fatal statement syncs the same sink after queueing and then aborts, on every path')
    rep.rule('style', 'the style function receives the level of the statement')
    rep.rule('atomic-level', 'the level of a sink is only accessed atomically')
    mod = levels_mod(ctx)
    gate_rule(rep, mod, False)
    style_rule(rep, mod)
    gate_rule(rep, levels_mod(ctx, True), True)
    lib = ctx.lib()
    for n in sorted(lib.fns):
        if not any('i32' in i.get('ty', '') or i['op'] == 'store' for b in lib.fns[n]['bb'] for i in b['i']):
            continue
        fn = lib.fn(n)
        for I in fn.all():
            p = mem_ptr(I)
            if p is None or not (fieldname(fn, p, I) or '').endswith('level_._M_i'):
                continue
            if 'sink' not in fieldname(fn, p, I):
                continue
            rep.n('level_accesses')
            ctor = any(re.match(r'_ZN3xtr4sinkC[12]|_ZNSt6atomicIN3xtr11log_level_tEEC', nm or '') for _, _, nm in I.d.get('loc') or ()) or re.match(r'_ZN3xtr4sinkC', n)
            if not I.d.get('ord') and not ctor:
                rep.bad('atomic-level', I.where(), 'the level of a sink is accessed without an atomic operation in ' + fn.short())
    rep.need('log_statements', 90)
    rep.need('style_calls', 40)
    rep.need('level_accesses', 3)
