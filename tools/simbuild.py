"""Builds the simulator binaries from the working tree of /repo.

Every check has its own build directory (/verif/build/<name>), which is
recreated from scratch each time: nothing is reused from an earlier tree,
except objects of the simulator itself, which depend on files of /verif only
and on the headers of /repo; those are rebuilt as well.
"""
import concurrent.futures as cf
import glob, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
SEAMS = '''open open64 __open_2 __open64_2 openat read __read_chk close getrandom getentropy fopen fopen64
malloc calloc realloc posix_memalign aligned_alloc memalign free abort exit _exit __assert_fail raise
printf __printf_chk puts putchar perror fprintf __fprintf_chk rand srand random srandom time clock gettimeofday
clock_gettime usleep sleep nanosleep sched_yield poll pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_once'''.split()
BASE = ['-std=c99', '-m64', '-mavx2', '-mbmi2', '-march=native', '-mtune=native', '-O3', '-DNDEBUG', '-fPIC']
VARIANTS = {
    '': BASE,
    'nx_': BASE + ['-mno-adx'],
    'nq_': BASE + ['-mno-adx', '-mno-bmi2'],
}
TSAN = ['-std=c99', '-m64', '-mavx2', '-mbmi2', '-march=native', '-mtune=native', '-O1', '-g0', '-DNDEBUG', '-fPIC',
        '-fsanitize=thread', '-Wno-tsan']


def compile_lib(flags, src, obj):
    cmd = lambda f: [os.environ.get('SIM_CC', 'gcc')] + f + os.environ.get('SIM_CFLAGS', '').split() + inc() + ['-c', src, '-o', obj]
    try:
        return run(cmd(flags))
    except BuildError:
        if '-O1' not in flags:
            raise
        # inline assembly may need the registers that optimisation frees
        return run(cmd([f if f != '-O1' else '-O3' for f in flags]))


TRACE = BASE + ['-g0', '-fsanitize=thread', '-fsanitize-coverage=trace-pc', '-Wno-tsan', '-include', VERIF + '/sim/trace_pre.h']


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def lib_sources():
    s = [REPO + '/src/target.c']
    for f in sorted(glob.glob(REPO + '/third_party/*.c')):
        if os.path.basename(f) != 'cpu_caps.c':
            s.append(f)
    return s


def inc():
    return ['-I', REPO + '/include', '-I', REPO + '/third_party', '-I', REPO + '/src']


def link_lib(d, prefix, objs, seams, text=False):
    """partial link, then put the seams in between and isolate the library's data"""
    raw = '%s/%slib_raw.o' % (d, prefix)
    out = '%s/%slib.o' % (d, prefix)
    run(['ld', '-r', '-o', raw] + objs)
    syms = run(['nm', raw]).splitlines()
    defined, undef = set(), set()
    for l in syms:
        f = l.split()
        if len(f) == 2 and f[0] in 'Uw':
            undef.add(f[1])
        elif len(f) == 3 and f[1] in 'TDBRVWC':
            defined.add(f[2])
    args = []
    for s in seams:
        if s in undef:
            args += ['--redefine-sym', '%s=vs_%s' % (s, s)]
    if prefix:
        for s in sorted(defined):
            args += ['--redefine-sym', '%s=%s%s' % (s, prefix, s)]
    secs = run(['objdump', '-h', raw])
    for l in secs.splitlines():
        f = l.split()
        if len(f) > 2 and f[0].isdigit():
            n = f[1]
            if n == '.data' or n.startswith('.data.') and not n.startswith('.data.rel.ro'):
                args += ['--rename-section', n + '=libdata']
            elif n == '.bss' or n.startswith('.bss.') or n == 'COMMON':
                args += ['--rename-section', n + '=libbss,alloc,load,data,contents']
            elif text and (n == '.text' or n.startswith('.text.')):
                args += ['--rename-section', n + '=libtext']
            elif n in ('.tdata', '.tbss') or n.startswith('.tdata.') or n.startswith('.tbss.'):
                pass  # thread-local: fresh for every simulated thread
    run(['objcopy'] + args + [raw, out])
    return out, sorted(undef)


def build(name, kind, extra=()):
    """kind: ship | conc. Returns the path of the simulator."""
    d = os.path.join(VERIF, 'build', name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    jobs = []
    pool = cf.ThreadPoolExecutor(16)
    libs = {}
    if kind in ('ship', 'step'):
        variants = VARIANTS
        defs = ['-DHAVE_NX']
        if kind == 'step':
            variants = dict(VARIANTS, tr_=TRACE)
    else:
        variants = {'': TSAN}
        defs = ['-DCONC']
    for p, flags in variants.items():
        objs = []
        for s in lib_sources():
            o = '%s/%s%s.o' % (d, p, os.path.basename(s)[:-2])
            objs.append(o)
            jobs.append((p, o, pool.submit(compile_lib, flags, s, o)))
        libs[p] = objs
    failed = set()
    first = None
    sims = []
    simsrc = ['host', 'ops', 'targets', 'main'] + ([kind_worlds(kind)] if kind != 'conc' else ['worlds_conc', 'items', 'tsan_rt'])
    simsrc += [os.path.basename(f)[:-4] for f in sorted(glob.glob(VERIF + '/sim/w_*.cpp')) if (os.path.basename(f)[:-4] in CONC_WORLDS) == (kind == 'conc') and (os.path.basename(f)[:-4] in STEP_WORLDS) == (kind == 'step')]
    for p, o, j in jobs:
        try:
            j.result()
        except BuildError as e:
            if p in ('nq_', 'tr_'):
                failed.add(p)
            else:
                first = first or e
    if first:
        raise first
    if kind != 'conc' and 'nq_' not in failed:
        defs.append('-DHAVE_NQ')
    if kind == 'step':
        simsrc.append('trace_rt')
        if 'tr_' not in failed:
            defs.append('-DHAVE_TR')
    sj = []
    for s in simsrc:
        o = '%s/sim_%s.o' % (d, s)
        sims.append(o)
        sj.append(pool.submit(run, ['g++', '-std=c++17', '-O1', '-g1', '-march=native', '-fno-strict-aliasing', '-Wall', '-Wextra', '-Wno-ignored-attributes', '-fPIC'] + defs + inc() + ['-I', VERIF + '/sim', '-c', '%s/sim/%s.cpp' % (VERIF, s), '-o', o]))
    linked = []
    undef = set()
    for p in variants:
        if p in failed:
            continue
        o, u = link_lib(d, p, libs[p], SEAMS + (['memcpy', 'memset', 'memmove', 'memcmp'] if kind == 'conc' or p == 'tr_' else []), kind in ('conc', 'step'))
        linked.append(o)
        undef |= set(u)
    for j in sj:
        j.result()
    exe = d + '/sim'
    # host.o brings the pages in front of the library's data, tsan_rt.o those behind it
    last = [s for s in sims if s.endswith('sim_tsan_rt.o')]
    run(['g++', '-no-pie', '-Wl,-z,now', '-o', exe] + [s for s in sims if s not in last] + linked + last + ['-lpthread'] + os.environ.get('SIM_LD', '').split())
    if kind == 'step':
        operand_table(exe)
    return exe


REGS = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15']
OPERAND = re.compile(r'(?:%(fs|gs|es|ds|ss|cs):)?(-?0x[0-9a-f]+|-?\d+)?\(%?([a-z0-9]*)(?:,%([a-z0-9]+)(?:,(\d))?)?\)')


def operand_table(exe):
    """<exe>.mem: for every instruction of the library with a memory operand
    that is computed, its address, registers, scale and displacement."""
    out = []
    plt = [l.split() for l in run(['objdump', '-h', exe]).splitlines()]
    for f in plt:
        if len(f) > 3 and f[1].startswith('.plt'):
            out.append('P %d %d' % (int(f[3], 16), int(f[2], 16)))
    for l in run(['objdump', '-d', '--no-show-raw-insn', '-j', 'libtext', exe]).splitlines():
        head, _, ins = l.partition(':\t')
        if not ins or '(' not in ins:
            continue
        try:
            at = int(head, 16)
        except ValueError:
            continue
        if re.match(r'(lea|nop|data16|cs nop|xchg\s+%ax,%ax)', ins):
            continue
        ins = re.sub(r'\{[^}]*\}', '', ins.split('#')[0])
        for m in OPERAND.finditer(ins):
            seg, disp, base, index, scale = m.groups()
            if base in ('rip', 'eip') or seg in ('fs', 'gs'):
                continue
            vec = 0
            b = REGS.index(base) if base in REGS else -1
            i = -1
            if index:
                if index in REGS:
                    i = REGS.index(index)
                elif index[1:3] == 'mm':
                    i, vec = int(index[3:]), 1
            out.append('M %d %d %d %d %d %d' % (at, b, i, int(scale or 1), int(disp or '0', 0), vec))
            break
    with open(exe + '.mem', 'w') as f:
        f.write('\n'.join(out) + '\n')


CONC_WORLDS = ('w_c02', 'w_c03', 'sched')
STEP_WORLDS = ('w_c22',)


def kind_worlds(kind):
    return 'worlds_' + kind

if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2]))
