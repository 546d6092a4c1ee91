"""Logger rules: thread safety of the logger object."""
import re
from .vu import *
from . import life
from ..producer import irole
from ..ir import argtype

API = r'^xtr::logger::(get_sink|register_sink|set_command_path|set_log_level_style|set_default_log_level)\(|^xtr::sink::sink\(xtr::logger&'


class Locked(life.Post):
    """x: (mutex held, record posted to control_ and not yet acknowledged)"""
    init = life.Post.init._replace(x=(False, False))

    def __init__(self, flag, lg, ctl, mtx, effect):
        life.Post.__init__(self, flag)
        self.lg, self.ctl, self.mtx, self.effect = lg, ctl, mtx, effect

    def inctl(self, a):
        if self.vn.base_of(a.key()) == self.lg:
            return self.ctl[0] <= a.c < self.ctl[0] + self.ctl[2]
        for s, k in a.t.items():
            if k == 1:
                n = sym_name(self.vn, s)
                if n and n.startswith('logger::control_'):
                    return True
        return False

    def access(self, S, I, a):
        if self.inctl(a) and not S.user.x[0]:
            return ('bad', 'uses the queue of the logger\'s own sink without holding the mutex of the logger')
        n = fname(I)
        if ends(n, 'default_log_level_._M_i', 'default_log_level_') and not I.d.get('ord') and not S.user.x[0] and n.startswith('logger::'):
            return ('bad', 'accesses the default log level, which other threads may change, neither atomically nor with the mutex of the logger held')

    def load(self, S, I, a, n):
        return self.access(S, I, a) or life.Post.load(self, S, I, a, n)

    def store(self, S, I, a, v, n):
        b = self.access(S, I, a)
        if b:
            return b
        if irole(I) == 'nwritten' and self.inctl(a):
            S.user = S.user._replace(x=(S.user.x[0], True))
        return life.Post.store(self, S, I, a, v, n)

    def acked(self, S, rec):
        S.user = S.user._replace(x=(S.user.x[0], False))

    def called(self, S, I, name, args):
        held, open_ = S.user.x
        if LOCK.match(name) and args[0] == atom(self.lg).plus(self.mtx):
            if held:
                return ('bad', 'locks the mutex of the logger twice')
            S.user = S.user._replace(x=(True, open_))
            return None
        if UNLOCK.match(name) and args[0] == atom(self.lg).plus(self.mtx):
            if not held:
                return ('bad', 'unlocks the mutex of the logger without holding it')
            S.user = S.user._replace(x=(False, open_))
            return None
        if name.startswith('llvm.') and not name.startswith('llvm.mem'):
            return None
        if any(self.inctl(a) for a in args):
            if not held:
                return ('bad', 'uses the logger\'s own sink without holding the mutex of the logger')
            if re.match(r'_ZN3xtr4sink4syncEv', name):
                S.user = S.user._replace(x=(held, False))
        return None

    def unwind(self, S, I):
        return None

    def done(self, S, I):
        held, open_ = S.user.x
        if held:
            return ('bad', 'returns with the mutex of the logger locked')
        if open_ and self.effect:
            return ('bad', 'returns before the background thread has carried out the change')


def c11(ctx, rep):
    rep.rule('mutex', 'every access to logger::control_ in the public functions of logger happens between lock and unlock of logger::control_mutex_; the mutex is locked once and released on every path')
    rep.rule('atomic', 'fields read and written by several threads (sink::level_, logger::default_log_level_) are accessed with atomic instructions')
    rep.rule('effect', 'set_command_path and set_log_level_style return only after the acknowledgement of a record posted after theirs')
    mod = ctx.lib()
    ctl, mtx = mod.member('_ZTSN3xtr6loggerE', 'control_'), mod.member('_ZTSN3xtr6loggerE', 'control_mutex_')
    if not ctl or not mtx:
        raise Broken('logger::control_ or logger::control_mutex_ not found')
    fns, offs, flag = life.handshake(rep, mod, 'effect')
    api = [f for f in mod.by_dem(API) if not f.name.startswith('_ZZ')]
    for fn in api:
        lg = [i for i in range(len(fn.args)) if argtype(fn, i) == '_ZTSN3xtr6loggerE']
        if len(lg) != 1:
            raise Broken('no logger argument in ' + fn.short())
        eff = bool(re.search(r'set_command_path|set_log_level_style', fn.dem))
        go(rep, 'mutex', fn, Locked(flag, ('arg', lg[0]), ctl, mtx[0], eff), what=fn.short())
        rep.ok('logger_functions', fn.short())
    rep.need('logger_functions', 6)
    for m in (mod, ctx.levels()):
        for n in sorted(m.fns):
            fn = m.fn(n)
            for I in fn.all():
                if I.op not in ('load', 'store'):
                    continue
                f = fname(I)
                if not ends(f, 'sink::level_._M_i', 'sink::level_'):
                    continue
                if I.d.get('ord'):
                    rep.n('atomic_level_accesses')
                elif I.op == 'load' or re.search(r'consumer::|sink::set_level|sink::operator=|^w_', fn.dem):
                    rep.bad('atomic', where(I), 'the level of a sink, which the background thread may change, is accessed without an atomic operation in ' + fn.short())
    rep.need('atomic_level_accesses', 4)
