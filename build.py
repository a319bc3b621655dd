#!/usr/bin/env python3
"""Builds a simulated executable from /repo's current working tree (ninja, out of tree, in /verif/.build)."""
import os, subprocess, sys, glob, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(HERE, '.build'))

# harness -> sources of the repository it links (None: the whole library)
HARNESSES = {
    'rwlock': [],
    'pool': [],
    'listalloc': ['src/util/fn.cpp'],
    'memory': ['src/util/memory.cpp', 'src/util/fn.cpp'],
    'timer': None,
    'db': None, 'stream': None, 'dsv': None, 'index': None, 'sched': None,
}
# not part of the simulated system (see DESIGN.md): the optional V8/WebAssembly backend (not built here), and one
# translation unit of ~40k template instantiations that registers additional plan enumerators (200 s of compile time)
EXCLUDE = {'src/backend/V8Engine.cpp', 'src/backend/WasmAlgo.cpp', 'src/backend/WasmDSL.cpp', 'src/backend/WasmOperator.cpp',
           'src/backend/WasmUtil.cpp', 'src/backend/WebAssembly.cpp', 'src/IR/HeuristicSearchPlanEnumerator.cpp'}

def cxx():
    for c in ('clang++-18', 'clang++'):
        for d in os.environ.get('PATH', '/usr/bin').split(':') + ['/usr/bin']:
            if os.path.exists(os.path.join(d, c)): return os.path.join(d, c)
    return 'clang++'

def library_sources():
    out = []
    for sub in ('backend', 'catalog', 'lex', 'parse', 'storage', 'io', 'IR', 'util'):
        out += [os.path.relpath(p, REPO) for p in sorted(glob.glob(f'{REPO}/src/{sub}/**/*.cpp', recursive=True))]
    out += [f'src/{n}.cpp' for n in ('mutable', 'Options', 'version') if os.path.exists(f'{REPO}/src/{n}.cpp')]
    return [s for s in out if s not in EXCLUDE]

def generated(gen):
    os.makedirs(gen + '/mutable', exist_ok=True)
    def put(name, text):
        p = f'{gen}/mutable/{name}'
        if not os.path.exists(p) or open(p).read() != text: open(p, 'w').write(text)
    put('gitversion.tbl', 'X(GIT_REV, simulation)\nX(GIT_BRANCH, simulation)\nX(SEM_VERSION, )\n')
    put('mutable-config.hpp', '#pragma once\n#define M_EXPORT\n#define M_NO_EXPORT\n#define M_DEPRECATED __attribute__((__deprecated__))\n'
        '#define M_DEPRECATED_EXPORT M_DEPRECATED\n#define M_DEPRECATED_NO_EXPORT M_DEPRECATED\n')

def build(harness):
    t0 = time.time()
    # the few sources a small harness needs; should they not suffice (code moved to another file), the whole library
    whole = HARNESSES[harness] is None
    exe = (not whole and _build(harness, HARNESSES[harness], False)) or _build(harness, library_sources(), True) or _build(harness, library_sources(), False)
    if not exe:
        sys.stderr.write(open(f'{BUILD}/{harness}.log').read()[-6000:]); raise SystemExit(2)
    return exe, time.time() - t0

def _build(harness, srcs, pch):
    os.makedirs(BUILD, exist_ok=True)
    gen = BUILD + '/gen'; generated(gen)
    CXX = cxx()
    launcher = ''
    if os.environ.get('SIM_CCACHE'):                    # development only
        launcher = f"env CCACHE_DIR={os.environ['SIM_CCACHE']} ccache "
    inc = f'-I{gen} -I{REPO}/include -I{REPO}/src -I{HERE}/sim -isystem /usr/include/eigen3'
    common = '-std=gnu++20 -stdlib=libstdc++ -mavx2 -mbmi2 -mavx -msse4.2 -mbmi -fno-omit-frame-pointer -w -g0'
    flags = f'{common} -O1 -fsanitize=thread -DMUTABLE_SIMULATION {inc}'
    sut = flags + (f' -include-pch {BUILD}/pch.pch' if pch else '')
    L = [f'cxx = {launcher}{CXX}', f'builddir = {BUILD}',
         f'rule rt\n  command = $cxx -std=gnu++20 -O2 -w -I{HERE}/sim -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc',
         f'rule sut\n  command = $cxx {sut} -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc',
         f'rule pch\n  command = $cxx {flags} -x c++-header -fpch-instantiate-templates -MD -MF $out.d $in -o $out\n  depfile = $out.d\n  deps = gcc',
         f'rule link\n  command = $cxx -no-pie -fuse-ld=lld $in -o $out -ldl -lpthread']
    objs = []
    if pch: L.append(f'build {BUILD}/pch.pch: pch {HERE}/sim/pch.hpp')
    after = f' | {BUILD}/pch.pch' if pch else ''
    for n in ('rt', 'driver'):
        L.append(f'build {BUILD}/{n}.o: rt {HERE}/sim/{n}.cpp'); objs.append(f'{BUILD}/{n}.o')
    L.append(f'build {BUILD}/h_{harness}.o: sut {HERE}/sim/harness_{harness}.cpp' + after); objs.append(f'{BUILD}/h_{harness}.o')
    for s in srcs:
        o = f"{BUILD}/repo/{s[:-4]}.o"
        L.append(f'build {o}: sut {REPO}/{s}' + after); objs.append(o)
    exe = f'{BUILD}/sim_{harness}'
    L.append(f"build {exe}: link {' '.join(objs)}")
    nf = f'{BUILD}/{harness}.ninja'
    open(nf, 'w').write('\n'.join(L) + '\n')
    p = subprocess.run(['ninja', '-f', nf, exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    open(f'{BUILD}/{harness}.log', 'w').write(p.stdout)
    return None if p.returncode else exe

if __name__ == '__main__':
    if sys.argv[1] == '--setup':                        # nothing needs to be prepared: every check builds what it needs
        assert cxx(); print('ok'); sys.exit(0)
    e, t = build(sys.argv[1]); print(e, f'{t:.1f}s')
