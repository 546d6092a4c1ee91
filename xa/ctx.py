"""What a rule gets to look at: lazily built modules of the current tree."""
import json, os, sys
from . import build, ir
from .build import Broken

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(build.VERIF, 'witness'))


def canon(mod):
    """Private members are known to the rules by the names they had when the
    rules were written; a member that was merely renamed is recognised by its
    class and type (and by position where several share a type)."""
    base = json.load(open(os.path.join(HERE, 'layout.json')))
    for cls, mem in base.items():
        c = mod.classes.get(cls)
        if not c:
            continue
        have = {m[0] for m in c['m']}
        missing = [m for m in mem if m[0] not in have and m[0] != '<base>']
        if not missing:
            continue
        known = {m[0] for m in mem}
        extra = [m for m in c['m'] if m[0] not in known and m[0] != '<base>']
        for t in {m[1] for m in missing}:
            mi = [m for m in missing if m[1] == t]
            ex = [m for m in extra if m[2] == t]
            if len(mi) == len(ex):
                for a, b in zip(mi, ex):
                    b[0] = a[0]
    return mod


class Ctx:
    def __init__(self, tier='quick', config=None):
        self.tier = tier
        self.config = dict(config or {})   # defs, ndebug, exceptions, opt
        self.d = None
        self._mods = {}
        self._bc = {}
        self.units = 0

    def __enter__(self):
        self._s = build.Scratch()
        self.d = self._s.__enter__()
        return self

    def __exit__(self, *a):
        return self._s.__exit__(*a)

    def sub(self, n):
        p = os.path.join(self.d, n)
        os.makedirs(p, exist_ok=True)
        return p

    def compile(self, key, srcs, **kw):
        if key not in self._bc:
            opts = dict(self.config)
            opts['defs'] = list(opts.get('defs', ())) + list(kw.pop('defs', ()))
            opts.update(kw)
            self._bc[key] = build.compile_tus(srcs, self.sub(key), **opts)
            self.units += len(srcs)
        return self._bc[key]

    def libbc(self):
        return self.compile('lib', build.lib_sources())

    def module(self, key, bcs, **kw):
        if key not in self._mods:
            out = os.path.join(self.d, key + '.json')
            build.flatten(bcs, out, **kw)
            m = canon(ir.Module(out))
            os.unlink(out)
            if not m.fns:
                raise Broken('no functions in ' + key)
            self._mods[key] = m
        return self._mods[key]

    def lib(self):
        return self.module('lib', self.libbc(), keep='^_Z.*3xtr|^main$')

    def wsrc(self, name, text):
        p = os.path.join(self.sub('src'), name + '.cpp')
        with open(p, 'w') as f:
            f.write(text)
        return p

    def witness(self, name, text, keep='^w_|detail11trampoline', link=True, **kw):
        if name not in self._mods:
            src = self.wsrc(name, text)
            bc = self.compile('w_' + name, [src], **kw)
            self.module(name, bc + (self.libbc() if link else []), keep=keep)
        return self._mods[name]

    def shapes(self):
        import gen
        v = ['LOG', 'TRY_LOG']
        if self.tier == 'thorough':
            v += ['LOG_TS', 'TRY_LOG_TS', 'LOG_RTC', 'TRY_LOG_RTC', 'LOG_TSC', 'TRY_LOG_TSC']
        return self.witness('shapes', gen.shapes_tu(v), keep='^w_|detail11trampoline')

    def levels(self):
        import gen
        return self.witness('levels', gen.levels_tu(), keep='^w_')

    def levels_nd(self):
        import gen
        return self.witness('levels_nd', gen.levels_tu(), keep='^w_', defs=['XTR_NDEBUG'])

    def misc(self):
        import gen
        return self.witness('misc', gen.MISC, keep='^w_|_State_impl')

    def ctl(self):
        bc = self.compile('ctl', [os.path.join(build.REPO, 'src', 'xtrctl.cpp')])
        return self.module('ctl', bc + self.libbc(), keep='^main$')


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []      # (rule, where, text, key)
        self.counts = {}
        self.samples = []
        self.notes = []
        self.rules = {}
        self.stopped = []   # functions whose analysis gave up

    def rule(self, rid, text):
        self.rules[rid] = text

    def n(self, k, by=1):
        self.counts[k] = self.counts.get(k, 0) + by

    def ok(self, k, sample=None, by=1):
        self.n(k, by)
        if sample and len(self.samples) < 40:
            self.samples.append('%s: %s' % (k, sample))

    def bad(self, rule, where, text, key=None):
        self.viol.append((rule, where, text, key or ''))

    def need(self, k, least):
        """a rule that matched fewer instances than were confirmed by hand has
        lost its anchors"""
        if self.counts.get(k, 0) < least and not self.viol:
            raise Broken('%s: %d instances of %s, expected at least %d' % (self.pid, self.counts.get(k, 0), k, least))
