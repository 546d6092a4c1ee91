#!/usr/bin/env python3
"""Self-test of the checks: applies each edit of edits.py to a scratch copy of
the repository and compares the checks' answers with what the edit says.

  run.py [-p C01,C02] [-n name-regex] [-j N]

An edit is (name, {'bad': [ids]} or {'ok': [ids]}, [(file, old, new), ...]).
'bad': each of those checks must report a violation.  'ok': they must be quiet."""
import sys, os, re, subprocess, tempfile, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import edits


def job(e, only):
    name, exp, subs = e
    d = tempfile.mkdtemp(prefix='xst.')
    try:
        for x in ('include', 'src'):
            shutil.copytree(os.path.join('/repo', x), os.path.join(d, x))
        for f, old, new in subs:
            p = os.path.join(d, f)
            s = open(p).read()
            if old not in s:
                return [(name, '-', 'EDIT DOES NOT APPLY: %s: %r' % (f, old[:60]))]
            open(p, 'w').write(s.replace(old, new, 1))
        r = []
        ed = os.path.join(d, 'evidence')
        for kind in exp:
            for pid in exp[kind]:
                if only and pid not in only:
                    continue
                p = subprocess.run([os.path.join(VERIF, 'check'), pid], env=dict(os.environ, XTR_REPO=d, XTR_EVIDENCE=ed), capture_output=True, text=True)
                got = {0: 'ok', 1: 'bad'}.get(p.returncode, 'broken')
                good = got == kind
                lines = [l for l in p.stdout.splitlines() if l.startswith('  [')] or (p.stdout + p.stderr).splitlines()[-6:]
                r.append((name, pid, ('pass' if good else 'FAIL want %s got %s' % (kind, got)) + ('' if good and kind == 'ok' else '  ' + lines[0].strip()[:200] if lines else '') + ('' if good else '\n'.join([''] + lines[:5]))))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    only = rx = None
    j = 4
    while a:
        x = a.pop(0)
        if x == '-p':
            only = set(a.pop(0).split(','))
        elif x == '-n':
            rx = a.pop(0)
        elif x == '-j':
            j = int(a.pop(0))
    es = [e for e in edits.EDITS if (not rx or re.search(rx, e[0]))]
    if only:
        es = [e for e in es if any(set(v) & only for v in e[1].values())]
    bad = n = 0
    with cf.ThreadPoolExecutor(j) as ex:
        for rs in ex.map(lambda e: job(e, only), es):
            for name, pid, t in rs:
                n += 1
                if not t.startswith('pass'):
                    bad += 1
                print('%-34s %s %s' % (name, pid, t), flush=True)
    print('%d answers, %d wrong' % (n, bad))
    return 1 if bad else 0


sys.exit(main())
