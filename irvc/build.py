"""/repo sources -> IR module with the harness entry points, mechanically, on every run."""
import os
import re
import subprocess
import time

REPO = os.environ.get('VP_REPO', '/repo')
LL = '/usr/lib/llvm-18/bin'
CXX = 'clang++-18'
FLAGS = ['-std=c++17', '-DSCN_DISABLE_FAST_FLOAT', f'-I{REPO}/include', f'-I{REPO}/src', f'-I{REPO}/src/scn', '-DVP_REPO_IMPL="%s/src/scn/impl.cpp"' % REPO]


class BuildError(Exception):
    pass


def run(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def repo_compiles(work):
    """does /repo's own implementation file still compile by itself?"""
    rc, out = run([CXX, *FLAGS, '-fsyntax-only', f'{REPO}/src/scn/impl.cpp'])
    return rc == 0, out


def emit(harness, work, defines=(), inline=5000):
    """returns path of the textual IR"""
    tag = os.path.basename(harness).replace('.cpp', '')
    bc = os.path.join(work, tag + '.bc')
    bc2 = os.path.join(work, tag + '.2.bc')
    bc3 = os.path.join(work, tag + '.3.bc')
    ll = os.path.join(work, tag + '.ll')
    src = open(harness).read()
    flags = [f for l in re.findall(r'^// vp-flags: (.*)', src, re.M) for f in l.split()]
    rc, out = run([CXX, *FLAGS, *flags, *defines, '-O2', '-Xclang', '-disable-llvm-passes', '-w', '-c', '-emit-llvm', '-o', bc, harness])
    if rc:
        raise BuildError(out[-4000:])
    api = ','.join(sorted(set(re.findall(r'\b(vp_[a-z0-9_]+)\(', src)) | set(exported(bc))))
    keep = re.findall(r'^// vp-noinline: (\S+)', src, re.M)
    force = [f'-force-attribute={n}:noinline' for n in (std_mutators(bc) if '// vp-inline-strings' not in src else []) + named(bc, keep)]
    force += [f'-force-attribute={n}:alwaysinline' for n in named(bc, re.findall(r'^// vp-inline: (\S+)', src, re.M))]
    # opt-in: loops over literal text, whose end only becomes a constant once the failed branches are split off
    unroll = [] if '// vp-unroll' not in src else [[f'{LL}/opt', '-passes=function(loop-simplify,sink,early-cse,instcombine,loop-simplify,lcssa,'
              'loop(indvars,loop-unroll-full),sroa,early-cse,instcombine,simplifycfg)', '-unroll-threshold=3000', bc3, '-o', bc3]]
    for cmd in ([f'{LL}/opt', '-passes=forceattrs,internalize,globaldce', *force, f'-internalize-public-api-list={api}', bc, '-o', bc2],
                [f'{LL}/opt', '-O2', '-vectorize-loops=false', '-vectorize-slp=false', f'-inline-threshold={inline}',
                 '-unroll-runtime=false', '-unroll-allow-partial=false', '-unroll-allow-peeling=false', '-enable-split-backedge-in-load-pre=false',
                 bc2, '-o', bc3],
                *unroll,
                [f'{LL}/llvm-dis', bc3, '-o', ll]):
        rc, out = run(cmd)
        if rc:
            raise BuildError(' '.join(cmd) + '\n' + out[-4000:])
    return ll


def named(bc, keep):
    """functions of /repo that get a contract of their own (callers see the contract, not the body)"""
    rc, out = run([f'{LL}/llvm-nm', bc])
    pats = [re.compile('(?:(?<![0-9])|(?<=N_1))%d%s(I|E)' % (len(k), re.escape(k))) if not k.startswith('~') else re.compile(k[1:]) for k in keep]
    names = set(l.split()[-1] for l in out.splitlines() if l.split())
    return sorted(n for n in names if not n.startswith('vp_') and any(q.search(n) for q in pats))


def exported(bc):
    rc, out = run([f'{LL}/llvm-nm', '--defined-only', bc])
    return [l.split()[-1] for l in out.splitlines() if l.split() and l.split()[-1].startswith('vp_')]


def std_mutators(bc):
    """std::basic_string members that change the string: kept as calls and given contracts (trusted libstdc++)"""
    rc, out = run([f'{LL}/llvm-nm', bc])
    pat = re.compile(r'^_ZNSt7__cxx1112basic_stringI[cwD].*?E(9push_back|6append|6assign|6insert|7reserve|6resize|5erase|5clear|aSE|pLE|12_M_constructI|10_M_replace)')
    return sorted(set(n for n in (l.split()[-1] for l in out.splitlines() if l.split()) if pat.match(n)))
