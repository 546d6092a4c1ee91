"""Builds the bitcode the rules look at, from /repo's current working tree."""
import os, subprocess, sys, tempfile, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XTR_REPO', '/repo')
CXX = 'clang++-18'


class Broken(Exception):
    """The analysis could not be carried out (exit 2), as opposed to a violation."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return p


def tool():
    src = os.path.join(VERIF, 'tool', 'irx.cpp')
    bdir = os.path.join(VERIF, 'build')
    exe = os.path.join(bdir, 'irx')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(bdir, exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    p = run([CXX, '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include',
             '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
             src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    if p.returncode:
        raise Broken('cannot build irx: ' + p.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


BASE = ['-std=gnu++20', '-g', '-fstandalone-debug', '-flto', '-fwhole-program-vtables', '-fvisibility=hidden',
        '-Xclang', '-disable-llvm-passes', '-Wno-everything', '-emit-llvm', '-c',
        '-D__CLANG_ANALYSIS__=1']

# functions of the standard library and of fmt that stay calls: the rules treat
# them as operations with a known meaning
NOINLINE = ['^_ZNK?3fmt', 'xtr::detail::throw_',
            '^_ZNK?St(10_Hashtable|13unordered_map|8__detail|8function)',
            '^_ZNSt6vectorI.*E(9push_back|12emplace_back|17_M_realloc_insert|8pop_back|5erase|6insert|6resize|5clear|14_M_range_check|8_M_erase)']

SIMPLIFY = 'sroa<modify-cfg>,early-cse<memssa>,IC,simplifycfg<no-switch-to-lookup;keep-loops>'
PIPE_FLAT = ('always-inline,function(lower-expect,%s,jump-threading,gvn,IC,'
             'simplifycfg<no-switch-to-lookup;keep-loops>,sroa<modify-cfg>,early-cse<memssa>,IC,adce,simplifycfg<no-switch-to-lookup;keep-loops>)' % SIMPLIFY).replace('IC', 'instcombine<no-verify-fixpoint>')


def compile_tus(tus, outdir, defs=(), opt='-O1', ndebug=True, exceptions=True):
    """tus: list of source paths.  Returns list of .bc paths."""
    args = [CXX] + BASE + [opt, '-I' + os.path.join(REPO, 'include'),
                           '-I' + os.path.join(VERIF, 'witness')]
    if not any(d.startswith('XTR_FUNC') for d in defs):
        args.append('-DXTR_FUNC=')
    if ndebug:
        args.append('-DNDEBUG')
    if not exceptions:
        args.append('-fno-exceptions')
    args += ['-D' + d for d in defs]

    def one(s):
        o = os.path.join(outdir, os.path.basename(s).replace('.cpp', '') + '.bc')
        p = run(args + [s, '-o', o])
        return s, o, p
    outs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for s, o, p in ex.map(one, tus):
            if p.returncode:
                raise Broken('does not compile: %s\n%s' % (s, p.stderr[-3000:]))
            outs.append(o)
    return outs


def lib_sources(with_ctl=False):
    d = os.path.join(REPO, 'src')
    r = []
    for root, _, files in os.walk(d):
        for f in sorted(files):
            if f.endswith('.cpp') and (with_ctl or f != 'xtrctl.cpp'):
                r.append(os.path.join(root, f))
    return sorted(r)


def flatten(bcs, out, pipeline=PIPE_FLAT, keep='^_Z.*3xtr|^w_|^main$', noinline=NOINLINE, ll=None, extra=()):
    cmd = [tool()] + bcs + ['-o', out, '-keep', keep, '-pipeline', pipeline]
    for n in noinline:
        cmd += ['-noinline', n]
    if ll:
        cmd += ['-emit-ll', ll]
    cmd += list(extra)
    p = run(cmd)
    if p.returncode:
        raise Broken('irx failed: ' + p.stderr[-2000:])
    return out


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='xa.')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
