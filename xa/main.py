"""check <property> : decide one property on the current tree of the repository"""
import json, os, sys, time, traceback, hashlib, re
from . import build
from .build import Broken, VERIF
from .ctx import Ctx, Report
from .sim import Stop

EVD = os.environ.get('XTR_EVIDENCE') or os.path.join(VERIF, 'evidence')
RULES = {}


def rules():
    if RULES:
        return RULES
    from .rules import queue, frame, lines, life, lg, io, cmd, res, ctl, loop, rec, prefix, match, reg
    RULES.update({
        'C01': queue.c01, 'C02': frame.c02, 'C03': queue.c03, 'C04': queue.c04, 'C05': queue.c05,
        'C06': lines.c06, 'C07': lines.c07, 'C08': life.c08, 'C09': life.c09, 'C10': life.c10,
        'C11': lg.c11, 'C12': io.c12, 'C13': io.c13, 'C14': io.c14, 'C15': cmd.c15, 'C16': cmd.c16,
        'C17': res.c17, 'C18': res.c18, 'C19': ctl.c19, 'C20': loop.c20, 'C21': rec.c21,
        'C22': prefix.c22,
        'C23': match.c23, 'C24': reg.c24,
    })
    return RULES


CONFIGS = {
    'quick': [('default', {})],
    'thorough': [('default', {}),
                 ('debug-asserts', {'ndebug': False}),
                 ('O2-frontend', {'opt': '-O2'})],
}


def known():
    p = os.path.join(VERIF, 'known-findings.txt')
    r = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m:
                r.append((m.group(1), m.group(2), m.group(3)))
    return r


def evaluate(pid, tier):
    """(status, [reports], text)"""
    reps = []
    for name, cfg in CONFIGS[tier]:
        rep = Report(pid)
        rep.config = name
        with Ctx(tier, cfg) as ctx:
            try:
                rules()[pid](ctx, rep)
                if rep.stopped:
                    raise Stop(rep.stopped[0])
            except (Stop, Broken) as e:
                # a violation that was found stands; otherwise there is no answer
                if not rep.viol:
                    raise Broken(str(e))
            rep.counts['translation_units'] = ctx.units
            rep.counts['functions_in_modules'] = sum(len(m.fns) for m in ctx._mods.values())
        reps.append(rep)
        if rep.viol:
            break
    return reps


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if pid not in rules():
        print('unknown property', pid)
        return 2
    try:
        reps = evaluate(pid, tier)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc(limit=-6)
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    kn = [k for k in known() if k[0] == pid]
    new, old = [], {}
    for rep in reps:
        for rule, where, text, key in rep.viol:
            hit = [k for k in kn if key and k[1] == key]
            if hit:
                old[hit[0][1]] = hit[0][2]
            else:
                new.append((rep.config, rule, where, text))
    wall = time.time() - t0
    counts = {}
    for rep in reps:
        for k, v in rep.counts.items():
            counts[k] = counts.get(k, 0) + v
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the LLVM IR of /repo (all library translation units linked and flattened, plus witness instantiations of the public macros). Rules applied: ' +
                           '; '.join('[%s] %s' % kv for kv in reps[0].rules.items()),
            'configurations': [r.config for r in reps],
            **counts,
            'samples': [s for r in reps for s in r.samples][:20] or ['%s=%d' % kv for kv in sorted(counts.items())],
        },
        'assumptions': ['clang 18 front end and LLVM simplification passes preserve the meaning of the source',
                        'declared class layouts (debug info) identify fields'] + [n for n in reps[0].notes],
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    os.makedirs(EVD, exist_ok=True)
    with open(os.path.join(EVD, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s tier=%s: %s (%.1fs)' % (pid, tier, ', '.join('%s=%d' % kv for kv in sorted(counts.items())), wall))
    for k, t in old.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    if new:
        rp = os.path.join(EVD, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for cfg, rule, where, text in new:
                f.write('[%s] config=%s %s: %s\n' % (rule, cfg, where, text))
        for cfg, rule, where, text in new[:10]:
            print('  [%s] %s: %s' % (rule, where, text))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    try:
        os.unlink(os.path.join(EVD, pid + '.violation.txt'))
    except FileNotFoundError:
        pass
    return 0
