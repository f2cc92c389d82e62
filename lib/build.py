"""Builds the simulation programs: instrumented translation units (library code), the runtime, and the link.

Objects are cached in /verif/build (ignored by git) under a hash of the compiler, the flags and the preprocessed
source, so whatever changes in /repo's working tree that a unit sees leads to a new object."""
import hashlib, os, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GATL_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = os.environ.get('SIM_CXX', 'g++-11')
BASE = ['-std=c++17', '-w', '-fno-diagnostics-color', '-pthread', '-I' + os.path.join(REPO, 'cpp/include'), '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(VERIF, 'sim')]


class BuildError(Exception):
    pass


def table(name, alg, dim, incs, scalar='double', calls='calls_iso.h', kinds=None, flags=(), cost=30, opt=()):
    d = ['-DALG=' + alg, '-DDIM=%d' % dim, '-DSCALAR=' + scalar, '-DCALLS="%s"' % calls, '-DTABLE=tbl_' + name]
    if alg == 'gageneral':
        d.append('-DALG_HEADER="alg_general.hpp"')
    for i, inc in enumerate(incs):
        d.append('-DINC%d="%s.inc"' % (i + 1, inc))
    if kinds:
        d.append('-DKINDS="%s.inc"' % kinds)
    d += ['-D' + f for f in flags]
    return dict(src='harness/site_table.cpp', defs=d, instr=True, cost=cost, table=name, opt=list(opt))


def unit(src, defs=(), instr=True, cost=5):
    return dict(src=src, defs=list(defs), instr=instr, cost=cost)


RUNTIME = [unit('sim/simrt.cpp', instr=False), unit('sim/engine.cpp', instr=False), unit('harness/common.cpp', instr=False)]


def flags_of(u):
    f = list(BASE) + list(u['defs'])
    f += ['-O1', '-fsanitize=thread'] + u.get('opt', []) if u['instr'] else ['-O2']
    return f


def compile_unit(u):
    src = os.path.join(VERIF, u['src']) if not os.path.isabs(u['src']) else u['src']
    f = flags_of(u)
    pre = subprocess.run([CXX] + f + ['-E', '-P', src], capture_output=True)
    if pre.returncode:
        raise BuildError('preprocessing %s failed:\n%s' % (u['src'], pre.stderr.decode(errors='replace')[:3000]))
    syms = open(os.path.join(VERIF, 'sim/redefine.syms'), 'rb').read() if u['instr'] else b''
    # the paths of the checkout do not matter, the rest of the flags does
    key = hashlib.sha256('\0'.join([CXX] + [x for x in f if not x.startswith('-I')]).encode() + pre.stdout + syms).hexdigest()[:32]
    obj = os.path.join(BUILD, 'obj', key + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX] + f + ['-fmax-errors=5', '-c', src, '-o', tmp], capture_output=True)
        if r.returncode:
            raise BuildError('compiling %s %s failed:\n%s' % (u['src'], ' '.join(u['defs']), r.stderr.decode(errors='replace')[:6000]))
        if u['instr']:
            r = subprocess.run(['objcopy', '--redefine-syms=' + os.path.join(VERIF, 'sim/redefine.syms'), tmp])
            if r.returncode:
                raise BuildError('objcopy failed')
        os.replace(tmp, obj)
    return obj, key


def first_error(text):
    for line in text.split('\n'):
        if 'error:' in line:
            return line.strip()[:300]
    return text.strip()[:300]


def build(prop, units, jobs=8, log=print):
    """Returns the path of the program for a property and the tables left out of it (see below)."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    gen = os.path.join(BUILD, 'tables_%s.cpp' % prop)
    units = list(units)
    order = sorted(range(len(units)), key=lambda i: -units[i]['cost'])
    res = {}
    errs = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        run = [ex.submit(compile_unit, u) for u in RUNTIME]
        futs = {i: ex.submit(compile_unit, units[i]) for i in order}
        for i, fu in futs.items():
            try:
                res[i] = fu.result()
            except BuildError as e:
                errs[i] = str(e)
        runtime = [f.result() for f in run]
    # A changed library may no longer accept some call that a table makes, although its users' code compiles. Such a table
    # is left out, said so, and the rest is explored; without most of the tables there is no answer.
    left_out = [units[i]['table'] for i in sorted(errs) if 'table' in units[i]]
    tabs = [units[i]['table'] for i in range(len(units)) if i in res and 'table' in units[i]]
    if len(left_out) != len(errs) or len(left_out) > len(tabs):
        raise BuildError('\n'.join(errs[i] for i in sorted(errs)))
    for i in sorted(errs):
        log('%s: NOTE: table %s does not compile with this library and is left out: %s' % (prop, units[i]['table'], first_error(errs[i])))
    ready = [res[i] for i in range(len(units)) if i in res] + runtime
    if tabs:
        with open(gen + '.new', 'w') as f:
            f.write('#include <vector>\n#include "observe_site.h"\n')
            for t in tabs:
                f.write('extern hx::Site const tbl_%s[];\n' % t)
            f.write('namespace hx { std::vector<Table> const &tables() { static std::vector<Table> const t = { %s }; return t; } }\n' % ', '.join('{ "%s", tbl_%s }' % (t, t) for t in tabs))
        os.replace(gen + '.new', gen)
        ready.append(compile_unit(unit(gen, instr=False)))
    res = ready
    key = hashlib.sha256(''.join(r[1] for r in res).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, 'sim_%s_%s' % (prop, key))
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX, '-static', '-pthread', '-o', tmp] + [r[0] for r in res], capture_output=True)
        if r.returncode:
            raise BuildError('link failed:\n' + r.stderr.decode(errors='replace')[:6000])
        for old in os.listdir(BUILD):
            if old.startswith('sim_%s_' % prop) and not old.endswith('.tmp'):
                try:
                    os.unlink(os.path.join(BUILD, old))
                except OSError:
                    pass
        os.replace(tmp, exe)
    return exe, left_out
