"""The checks.  Each builds the library from the working tree of /repo under one or more build
configurations, drives it with its workloads and hands the observations to the monitors in mon/."""
import os
from vlib import *
import vlib

ALL = {}
def check(pid):
    def deco(f):
        ALL[pid] = f
        return f
    return deco

EVERY = 'known,struct,sub,dec,int,hard'
NOHARD = 'known,struct,sub,dec,int'

# ---------------------------------------------------------------------------- conversions (engine.cpp)
GROUPS = {
    'C01': [['default']], 'C02': [['default']], 'C03': [['default']],
    'C04': [['nte', 'nto', 'ntpi'], ['ntmi', 'ntz', 'nafz']],
    'C05': [['tpi'], ['tmi'], ['tz'], ['afz']],
    'C06': [['nte', 'nto'], ['ntpi', 'ntmi'], ['ntz', 'nafz']],
    'C07': [['nte', 'nto', 'ntpi', 'ntmi', 'ntz', 'nafz', 'nte_sb'], ['nto_sb', 'ntpi_sb', 'ntmi_sb', 'tpi', 'tmi', 'tz', 'afz']],
    'C08': [['nte', 'nte_sb'], ['nto', 'nto_sb'], ['ntpi', 'ntpi_sb'], ['ntmi', 'ntmi_sb']],
    'C09': [['nte', 'nto', 'default'], ['ntpi', 'ntmi'], ['ntz', 'nafz'], ['nte_sb', 'nto_sb'], ['ntpi_sb', 'ntmi_sb'], ['tpi', 'tmi'], ['tz', 'afz']],
    'C22': [['nte', 'nto', 'default'], ['ntpi', 'ntmi', 'ntz'], ['nafz', 'nte_sb', 'nto_sb'], ['ntpi_sb', 'ntmi_sb', 'tpi'], ['tmi', 'tz', 'afz']],
}
CRS = {'C01': '0x3f', 'C02': '0x3f', 'C03': '0x3f', 'C04': '0x20', 'C05': '0x3f', 'C06': '0x1e', 'C07': '0x03', 'C08': '0x1f', 'C09': '0x3f', 'C22': '0x23'}
SIGNS = {'C01': 3, 'C08': 3, 'C09': 3}

DUMP = ('gcc64o1', [Job(src('dump.cpp'))])
# workload sizes: (quick, thorough)
#   f/d: arguments of the main 64-bit run; f2/d2: of the 32-bit run
def Q(q, t):
    return t if THOROUGH else q

def conv_programs(pid, variant):
    return (variant, tab_jobs(GROUPS[pid], CRS[pid], SIGNS.get(pid, 2)) + [Job(src('engine.cpp'), ['ENGINE_ONLY=%d' % int(pid[1:])])])

def fuzz_programs(v, groups, crs, strs=0):
    return (v, tab_jobs(groups, crs, 2, strs) + ([Job(fp_src())] if strs else []) + [Job(src('fuzz.cpp'), flags=['-fno-sanitize=fuzzer-no-link'])])
def engine_check(pid, rule, main_args, small_args, list_args, exhaustive=None, main='gcc64', small=('gcc32r', 'clang64r')):
    c = Check(pid, rule)
    progs = {'main': conv_programs(pid, main)}
    for v in small:
        progs[v] = conv_programs(pid, v)
    progs['dump'] = DUMP
    progs['fuzz'] = fuzz_programs('fuzz', GROUPS[pid], CRS[pid])
    ex = build(progs, optional=tuple(small) + ('fuzz',))
    if main != 'gcc64' or True:
        c.extra['build_configurations'] = [main] + [v for v in small if v in ex]
    base = ['check=' + pid, 'seed=%d' % SEED, 'threads=%d' % NCPU]
    def one_for(exe):
        return lambda f: ['check=' + pid, 'seed=%d' % SEED, 'type=' + f.get('type', 'd'), 'bits=' + f.get('bits', '1'), 'wd=20']
    for label, args in main_args:
        r = run([ex['main']] + base + args)
        c.add(main + ' ' + label, r)
        c.judge(main + ' ' + label, r, ex['main'], one_for(ex['main']), {'program': 'conv', 'variant': main})
        if c.viol:
            return c.finish()
    if 'fuzz' in ex:
        lst = os.path.join(tmpdir(), 'fuzzed')
        c.extra['guided_search'] = fuzz(ex['fuzz'], Q(6, 900), lst)
        r = run([ex['main']] + base + ['frand=0', 'drand=0', 'list_f=' + lst + '.f', 'list_d=' + lst + '.d'])
        c.add(main + ' guided', r)
        c.judge(main + ' guided', r, ex['main'], one_for(ex['main']), {'program': 'conv', 'variant': main})
        if c.viol:
            return c.finish()
    if small:
        lst = os.path.join(tmpdir(), 'lst')
        r = run([ex['dump'], 'check=dump', 'seed=%d' % SEED, 'out=' + lst] + list_args)
        if not r.done:
            raise CheckError('dump failed: ' + r.out + r.err)
        for v in small:
            if v not in ex:
                c.notes.append('build configuration %s does not compile: not observed' % v)
                continue
            r = run([ex[v]] + base + small_args + ['list_f=' + lst + '.f', 'list_d=' + lst + '.d'])
            c.add(v, r)
            c.judge(v, r, ex[v], one_for(ex[v]), {'program': 'conv', 'variant': v})
    c.exhaustive = exhaustive
    if exhaustive is None:
        c.exhaustive = None
    return c.finish()

ORACLE_RULE = ('Inputs: %s. Each conversion is judged by exact multi-limb integer comparison of the result, its '
    'neighbours and its shorter neighbours with the rounding interval. Non-trivial: %s. Distinct inputs are counted '
    '(floats of the exhaustive run are distinct by construction; others by sorting the recorded bit patterns, capped at 3M per thread and run).')
MULTI = 'the interval holds more than one decimal of the result\'s length, or an end point or exact tie was hit, so the code had a choice to get wrong'

SMALL = ['work=' + NOHARD, 'structk=2', 'drep=1', 'frep=1']
def small_args(f, d):
    return SMALL + ['frand=%d' % f, 'drand=%d' % d]
LISTS = ['work=known,hard', 'hardk=4', 'frand=0', 'drand=0']

def default_mode(pid, nontriv):
    main_args = [('floats', ['type=f', 'fstride=%d' % 1, 'work=' + NOHARD]),
                 ('doubles', ['type=d', 'work=' + EVERY, 'hardk=%d' % Q(32, 600), 'structk=%d' % Q(128, 4000), 'drep=%d' % Q(8, 150), 'drand=%d' % Q(5000, 1200000)])]
    return engine_check(pid, ORACLE_RULE % ('all 2139095039 positive float magnitudes; doubles: structured significands in every binade, subnormals, short decimals and half-way decimals at every exponent, integers/exact products, generated hard cases, uniform random bits', nontriv),
        main_args, small_args(Q(40, 4000), Q(40, 4000)) + (['fstride=%d' % Q(997, 7)]), LISTS)

@check('C01')
def c01():
    return default_mode('C01', 'the result is not exactly equal to the input, so the rounding interval decides')
@check('C02')
def c02():
    return default_mode('C02', MULTI)
@check('C03')
def c03():
    return default_mode('C03', MULTI)

def modes_check(pid, nontriv, fq, dq, ft, dt, hardq=8, hardt=100, small=('gcc32r',)):
    main_args = [('floats', ['type=f', 'work=' + EVERY, 'fstride=%d' % Q(fq, ft), 'hardk=%d' % Q(32, 200), 'frep=%d' % Q(4, 20), 'frand=%d' % Q(20, 2000), 'structk=%d' % Q(64, 1000)]),
                 ('doubles', ['type=d', 'work=' + EVERY, 'hardk=%d' % Q(hardq, hardt), 'structk=%d' % Q(16, 500), 'drep=%d' % Q(3, 40), 'drand=%d' % Q(dq, dt)])]
    return engine_check(pid, ORACLE_RULE % ('floats on a seed-dependent stride plus structured/decimal/hard ones; doubles: structured significands in every binade, subnormals, short and half-way decimals, integers/exact products, generated hard cases, uniform random bits; every listed mode and policy on each', nontriv),
        main_args, small_args(Q(10, 400), Q(10, 400)) + ['fstride=%d' % Q(9973, 101)], ['work=known,hard', 'hardk=1', 'frand=0', 'drand=0'], small=small)

@check('C04')
def c04():
    return modes_check('C04', MULTI, 11, 2500, 1, 60000, 24, 200)
@check('C05')
def c05():
    return modes_check('C05', MULTI, 41, 1200, 3, 12000, 16, 100)
@check('C06')
def c06():
    return modes_check('C06', MULTI, 41, 1200, 3, 12000, 16, 100)
@check('C07')
def c07():
    return modes_check('C07', 'in some mode the do-not-care result differs from the searching one, so skipping the search had an effect', 53, 1000, 3, 12000, 16, 100)
@check('C08')
def c08():
    return modes_check('C08', 'modes or policies disagree on this input, so a variant wired to the wrong rule would show', 41, 1500, 2, 20000, 16, 100)
@check('C09')
def c09():
    return modes_check('C09', 'some mode treats the two signs of this magnitude differently, so mirroring matters', 257, 350, 17, 4000, 6, 40)
@check('C22')
def c22():
    main = 'gcc64'
    return modes_check('C22', 'neighbouring inputs whose decimals differ by one in the last place or are printed at different lengths', 73, 1000, 5, 8000, 12, 60)

# ---------------------------------------------------------------------------- text (strings.cpp, msan.cpp)
ALLMODES = [['nte', 'nto', 'default'], ['ntpi', 'ntmi'], ['ntz', 'nafz'], ['nte_sb', 'nto_sb'], ['ntpi_sb', 'ntmi_sb'], ['tpi', 'tmi'], ['tz', 'afz']]
def text_programs(variant, groups=ALLMODES, main='strings.cpp', signs=2, crs='0x3f', strs=3, extra=(), types=('float', 'double')):
    return (variant, tab_jobs(groups, crs, signs, strs, types) + [Job(src(main)), Job(fp_src())] + list(extra))
REPLAY = {}
def REPLAY_text(rp):
    return build({'main': text_programs(rp['variant'], rp.get('groups') or ALLMODES, rp.get('main', 'strings.cpp'), rp.get('signs', 2))})
REPLAY['text'] = REPLAY_text

def one_bits(pid):
    return lambda f: ['check=' + pid, 'seed=%d' % SEED, 'type=' + f.get('type', 'd'), 'bits=' + f.get('bits', '1'), 'wd=20']

def text_check(pid, rule, runs, variants, list_args=None, exhaustive=None, guided=None):
    """runs: [(program, label, args)]; variants: {program: (variant, groups)}"""
    c = Check(pid, rule)
    progs = dict({n: text_programs(*v) for n, v in variants.items()}, dump=DUMP)
    if guided:
        progs['fuzz'] = fuzz_programs('fuzz', ALLMODES, '0x20', 1)
    ex = build(progs, optional=[n for n in variants if n not in ('main', 'default')] + ['fuzz'])
    base = ['check=' + pid, 'seed=%d' % SEED, 'threads=%d' % NCPU]
    lst = os.path.join(tmpdir(), 'lst')
    if list_args:
        r = run([ex['dump'], 'check=dump', 'seed=%d' % SEED, 'out=' + lst] + list_args)
        if not r.done:
            raise CheckError('dump failed: ' + r.out + r.err)
    c.extra['build_configurations'] = sorted(set(variants[n][0] for n in variants if n in ex))
    if 'fuzz' in ex:
        c.extra['guided_search'] = fuzz(ex['fuzz'], guided, os.path.join(tmpdir(), 'fuzzed'))
        runs = runs + [(n, 'guided', ['frand=0', 'drand=0', 'list_f=' + os.path.join(tmpdir(), 'fuzzed.f'), 'list_d=' + os.path.join(tmpdir(), 'fuzzed.d')]) for n in variants]
    for prog, label, args in runs:
        if prog not in ex:
            c.notes.append('build configuration %s does not compile: not observed' % variants[prog][0])
            continue
        a = base + [x.replace('@LIST', lst) for x in args]
        r = run([ex[prog]] + a)
        c.add('%s %s' % (variants[prog][0], label), r)
        c.judge('%s %s' % (variants[prog][0], label), r, ex[prog], one_bits(pid), {'program': 'text', 'variant': variants[prog][0], 'groups': variants[prog][1] if len(variants[prog]) > 1 else None})
        if c.viol:
            break
    c.exhaustive = exhaustive
    return c.finish()

LFD = ['list_f=@LIST.f', 'list_d=@LIST.d']
@check('C10')
def c10():
    return text_check('C10',
        'Each text is compared byte for byte with an independently rendered form of the numeric result of the same arguments; default-configuration texts are also read back by strtof/strtod (1 in 16; all in thorough). '
        'Non-trivial: every distinct input counts, because every one is rendered through the digit-block writer under test.',
        [('default', 'floats, default configuration', ['type=f', 'fstride=%d' % Q(1, 1), 'opt=%d' % Q(0, 1)]),
         ('default', 'doubles, default configuration', ['type=d', 'work=' + EVERY, 'hardk=%d' % Q(8, 300), 'structk=%d' % Q(64, 3000), 'drep=%d' % Q(6, 100), 'drand=%d' % Q(1500, 400000), 'opt=%d' % Q(0, 1)]),
         ('main', 'every mode and policy', ['work=known,struct,dec', 'structk=2', 'drep=1', 'frep=1', 'frand=%d' % Q(30, 6000), 'drand=%d' % Q(30, 6000)] + LFD),
         ('clang32', 'every mode and policy', ['work=known', 'drep=1', 'frep=1', 'frand=%d' % Q(6, 600), 'drand=%d' % Q(6, 600)] + LFD),
         ('clang64', 'default configuration', ['work=' + EVERY, 'hardk=2', 'structk=16', 'drep=2', 'frep=2', 'frand=%d' % Q(200, 9000), 'drand=%d' % Q(200, 9000)])],
        {'main': ('gcc64',), 'default': ('gcc64r', [['default']]), 'clang32': ('clang32r',), 'clang64': ('clang64', [['default']])},
        ['work=hard,dec', 'hardk=1', 'drep=1', 'frep=1', 'frand=0', 'drand=0', 'sub=%d' % Q(6, 1)], guided=Q(6, 900))

@check('C11')
def c11():
    return text_check('C11',
        'Inputs: both zeros, both infinities and NaNs of both signs in every mode and policy with both writers; all 16777214 float NaNs and random/structured double NaNs. Every distinct pattern counts as non-trivial.',
        [('main', 'specials', ['frep=%d' % Q(40, 1000), 'drep=%d' % Q(40, 1000), 'fstride=1', 'drand=%d' % Q(200, 20000)]),
         ('gcc32', 'specials', ['frep=4', 'drep=4', 'fstride=1', 'drand=%d' % Q(20, 2000)]),
         ('clang64', 'specials', ['frep=4', 'drep=4', 'fstride=1', 'drand=%d' % Q(20, 2000)])],
        {'main': ('gcc64',), 'gcc32': ('gcc32r',), 'clang64': ('clang64r',)}, exhaustive='float zeros, infinities and NaNs: every bit pattern')

def MSAN_ONE(f):
    return ['%s=%s' % (f.get('type', 'd'), f.get('bits', '1'))]
@check('C12')
def c12():
    c = Check('C12', 'Each text is written into a filled arena at varying alignment (two fillings that differ in every byte), flush against an unmapped page on either side, '
        '(ASan build) into an exact-size heap block, and (MSan build) into a poisoned buffer whose other bytes must stay poisoned. '
        'Non-trivial: every distinct bit pattern written.')
    progs = {'main': text_programs('gcc64'), 'default': text_programs('clang64r', [['default']]), 'gcc32': text_programs('gcc32', [['default'], ['tpi', 'nto']], crs='0x20'),
             'asan': text_programs('asan', [['default'], ['tpi', 'tmi'], ['nto', 'nafz']], crs='0x22'),
             'msan': text_programs('msan', [['default'], ['tpi', 'tmi', 'nto', 'nafz']], 'msan.cpp', 3, '0x22'),
             'dump': DUMP}
    ex = build(progs, optional=('default', 'gcc32', 'asan', 'msan'))
    lst = os.path.join(tmpdir(), 'lst')
    r = run([ex['dump'], 'check=dump', 'seed=%d' % SEED, 'out=' + lst, 'work=known,struct,dec', 'structk=1', 'frep=1', 'drep=1', 'frand=1', 'drand=%d' % Q(4, 40)])
    if not r.done:
        raise CheckError('dump failed: ' + r.out + r.err)
    base = ['check=C12', 'seed=%d' % SEED, 'threads=%d' % NCPU]
    for prog, args in [
            ('main', ['work=known,dec', 'structk=1', 'frep=1', 'drep=1', 'frand=%d' % Q(4, 600), 'drand=%d' % Q(4, 600)]),
            ('default', ['work=' + EVERY, 'hardk=1', 'structk=64', 'frep=6', 'drep=6', 'fstride=%d' % Q(97, 5), 'drand=%d' % Q(1200, 40000)]),
            ('gcc32', ['work=known,dec,struct', 'structk=1', 'frep=1', 'drep=1', 'frand=%d' % Q(20, 600), 'drand=%d' % Q(20, 600)]),
            ('asan', ['work=known,dec', 'structk=1', 'frep=1', 'drep=1', 'frand=%d' % Q(4, 600), 'drand=%d' % Q(4, 600)])]:
        if prog not in ex:
            c.notes.append('build configuration %s does not compile: not observed' % prog)
            continue
        r = run([ex[prog]] + base + args)
        c.add(progs[prog][0], r)
        c.judge(progs[prog][0], r, ex[prog], one_bits('C12'), {'program': 'text', 'variant': progs[prog][0]})
        if c.viol:
            return c.finish()
    if 'msan' in ex:
        # one process per slice: MSan driver is single threaded
        split_list(lst, NCPU)
        for i, r in enumerate(run_many([[ex['msan'], 'list_f=%s.f.%d' % (lst, i), 'list_d=%s.d.%d' % (lst, i)] for i in range(NCPU)])):
            c.add('msan slice %d' % i, r)
            c.judge('msan', r, ex['msan'], MSAN_ONE, {'program': 'text', 'variant': 'msan', 'main': 'msan.cpp', 'signs': 3})
            if c.viol:
                break
    return c.finish()

# ---------------------------------------------------------------------------- sanitizers and assertions (sweep.cpp)
COVFLAG = '-fsanitize-coverage=trace-pc-guard'
FINE = [['nte', 'default'], ['nto'], ['ntpi'], ['ntmi'], ['ntz'], ['nafz'], ['nte_sb', 'nto_sb'], ['ntpi_sb', 'ntmi_sb'], ['tpi', 'tmi'], ['tz', 'afz']]
def sweep_programs(variant, groups=FINE, crs='0x3f', cov=False, main='sweep.cpp'):
    tabs = tab_jobs(groups, crs, 3, 3)
    libs = tabs + [Job(fp_src()), Job(src('insp_tab.cpp'))]
    m = Job(src(main))
    if cov:
        for j in libs:
            j.flags.append(COVFLAG)
        m.defs.append('SWEEP_COV')
    return (variant, libs + [m])
SWEEP = {
    'asan': lambda: sweep_programs('asan'),
    'ubsan32': lambda: sweep_programs('ubsan32', crs=Q('0x21', '0x3f')),
    'gccsan': lambda: sweep_programs('gccsan', Q([['default'], ['ntpi', 'tmi', 'tz', 'afz']], FINE), crs=Q('0x24', '0x3f')),
    'gcc64': lambda: sweep_programs('gcc64'),
    'gcc32': lambda: sweep_programs('gcc32', crs=Q('0x22', '0x3f')),
    'cov': lambda: sweep_programs('clang64', crs=Q('0x25', '0x3f'), cov=True),
    'msan': lambda: text_programs('msan', Q([['default'], ['nto', 'ntpi_sb', 'tpi', 'tz']], FINE), 'msan.cpp', 3, Q('0x24', '0x3f')),
}
REPLAY['sweep'] = lambda rp: build({'main': SWEEP[rp['key']]()})
@check('C13')
def c13():
    c = Check('C13', 'Every conversion form, writer and inspector is called on each input in builds instrumented with AddressSanitizer+UBSan (clang and gcc), UBSan on 32-bit, MemorySanitizer, '
        'with internal assertions enabled everywhere, and with basic-block edge counters bounding the steps per call; a watchdog attributes calls that do not return. '
        'Non-trivial: every distinct bit pattern driven through all instantiated forms (capped at 3M counted per thread and run).')
    ex = build(dict({k: f() for k, f in SWEEP.items()}, dump=DUMP, fuzz=fuzz_programs('fuzzsan', FINE, Q('0x22', '0x3f'), 1)), optional=('ubsan32', 'gccsan', 'gcc32', 'msan', 'cov', 'fuzz'))
    base = ['check=C13', 'seed=%d' % SEED, 'threads=%d' % NCPU]
    lst = os.path.join(tmpdir(), 'lst')
    r = run([ex['dump'], 'check=dump', 'seed=%d' % SEED, 'out=' + lst, 'work=known,struct,dec,hard', 'hardk=1', 'structk=1', 'frep=1', 'drep=1', 'frand=1', 'drand=4'])
    if not r.done:
        raise CheckError('dump failed: ' + r.out + r.err)
    lists = ['list_f=' + lst + '.f', 'list_d=' + lst + '.d']
    gl = []
    if 'fuzz' in ex:
        f = os.path.join(tmpdir(), 'fuzzed')
        c.extra['guided_search'] = fuzz(ex['fuzz'], Q(10, 1800), f)
        gl = [(n, ['work=', 'frand=0', 'drand=0', 'list_f=' + f + '.f', 'list_d=' + f + '.d']) for n in ('asan', 'ubsan32', 'gcc64')]
    for prog, args in gl + [
            ('asan', ['work=' + Q('known,sub', EVERY), 'structk=1', 'hardk=1', 'frep=1', 'drep=1', 'frand=%d' % Q(2, 2000), 'drand=%d' % Q(2, 2000)] + lists),
            ('ubsan32', ['work=known,struct,dec', 'structk=1', 'frep=1', 'drep=1', 'frand=%d' % Q(2, 800), 'drand=%d' % Q(2, 800)]),
            ('gccsan', ['work=known,struct,dec', 'structk=1', 'frep=1', 'drep=1', 'frand=%d' % Q(2, 400), 'drand=%d' % Q(2, 400)]),
            ('gcc32', ['work=known,struct,sub', 'structk=8', 'frep=1', 'drep=1', 'frand=%d' % Q(10, 2000), 'drand=%d' % Q(10, 2000)]),
            ('cov', ['work=known,struct,dec', 'structk=1', 'frep=1', 'drep=1', 'frand=%d' % Q(2, 400), 'drand=%d' % Q(2, 400)]),
            ('gcc64', ['work=' + Q('known,struct,sub,dec,int', EVERY), 'hardk=1', 'structk=8', 'frep=1', 'drep=1', 'fstride=%d' % Q(1999, 17), 'drand=%d' % Q(40, 20000)])]:
        if prog not in ex:
            c.notes.append('build configuration %s does not compile: not observed' % prog)
            continue
        r = run([ex[prog]] + base + args)
        c.add(prog, r)
        c.judge(prog, r, ex[prog], one_bits('C13'), {'program': 'sweep', 'key': prog})
        if c.viol:
            return c.finish()
    if 'msan' in ex:
        split_list(lst, NCPU)
        for i, r in enumerate(run_many([[ex['msan'], 'list_f=%s.f.%d' % (lst, i), 'list_d=%s.d.%d' % (lst, i)] for i in range(NCPU)])):
            c.add('msan slice %d' % i, r)
            c.judge('msan', r, ex['msan'], MSAN_ONE, {'program': 'sweep', 'key': 'msan'})
            if c.viol:
                break
    return c.finish()

# ---------------------------------------------------------------------------- inspectors (inspect.cpp)
def insp_programs(variant):
    return (variant, [Job(src('inspect.cpp')), Job(src('insp_tab.cpp'))])
REPLAY['insp'] = lambda rp: build({'main': insp_programs(rp['variant'])})
@check('C15')
def c15():
    c = Check('C15', 'Each pattern is decoded bit by bit by the monitor and compared with every inspector; all 2^32 float patterns in the main build. '
        'Non-trivial: zeros, subnormals, infinities and NaNs, where the predicates are decided.')
    vs = ['gcc64', 'gcc32', 'clang64r', 'asan']
    ex = build({v: insp_programs(v) for v in vs}, optional=vs[1:])
    for v in vs:
        if v not in ex:
            c.notes.append('build configuration %s does not compile: not observed' % v)
            continue
        r = run([ex[v], 'check=C15', 'seed=%d' % SEED, 'threads=%d' % NCPU, 'fstride=%d' % (1 if v == 'gcc64' else Q(61, 1) if v != 'asan' else Q(997, 61)), 'drand=%d' % (Q(2000, 100000) if v == 'gcc64' else Q(200, 10000))])
        c.add(v, r)
        c.judge(v, r, ex[v], one_bits('C15'), {'program': 'insp', 'variant': v})
        if c.viol:
            break
    c.exhaustive = 'float: every one of the 2^32 bit patterns (gcc64 build)'
    return c.finish()

# ---------------------------------------------------------------------------- build configurations (engine.cpp digest)
C14_VARIANTS = ['gcc64', 'gcc64w', 'gcc64r', 'gcc64o0', 'clang64', 'clang64r', 'gcc32', 'gcc32r', 'clang32r', 'gcc32x87', 'gcc64v3']
def digest_programs(v):
    crs = '0x3f'
    return (v, tab_jobs(FINE if v in ('gcc32r', 'clang32r', 'gcc64r', 'clang64r') else ALLMODES, crs, Q(2, 3), Q(1, 3)) + [Job(src('engine.cpp'), ['ENGINE_ONLY=14']), Job(fp_src())])
REPLAY['digest'] = lambda rp: build({v: digest_programs(v) for v in rp['variants']})
@check('C14')
def c14():
    c = Check('C14', 'Each build configuration converts the same recorded input list in every mode and policy; digests of significand, exponent, sign and text per (type, block of 4096 inputs, mode, policy) '
        'are compared across configurations, and a mismatch is traced to the first differing input. Non-trivial: every distinct input (all need 64-bit arithmetic that the 32-bit builds emulate).')
    ex = build(dict({v: digest_programs(v) for v in C14_VARIANTS}, dump=DUMP), optional=C14_VARIANTS)
    vs = [v for v in C14_VARIANTS if v in ex]
    for v in C14_VARIANTS:
        if v not in ex:
            c.notes.append('build configuration %s does not compile: not observed' % v)
    if len(vs) < 2:
        raise CheckError('fewer than two build configurations compile: %s' % list(ex['_failed'].values())[:1])
    lst = os.path.join(tmpdir(), 'lst')
    r = run([ex['dump'], 'check=dump', 'seed=%d' % SEED, 'out=' + lst, 'work=known,struct,sub,dec,hard', 'hardk=%d' % Q(1, 4), 'structk=%d' % Q(1, 40), 'frep=1', 'drep=1', 'frand=%d' % Q(4, 60), 'drand=%d' % Q(4, 60), 'sub=%d' % Q(2, 1)])
    if not r.done:
        raise CheckError('dump failed: ' + r.out + r.err)
    n = r.stats.get('dumped_f', 0) + r.stats.get('dumped_d', 0)
    args = ['check=digest', 'seed=%d' % SEED, 'threads=%d' % NCPU, 'list_f=' + lst + '.f', 'list_d=' + lst + '.d']
    digs = {}
    for v in vs:
        r = run([ex[v]] + args)
        c.add(v, r)
        c.judge(v, r, ex[v], lambda f: ['check=digest', 'seed=%d' % SEED, 'type=' + f.get('type', 'd'), 'bits=' + f.get('bits', '1')], {'program': 'digest', 'variants': [v], 'exe': v})
        digs[v] = r.digests
        if c.viol:
            return c.finish()
    ref = vs[0]
    c.nontriv = n
    c.extra['build_configurations'] = vs
    c.extra['digests_compared'] = len(digs[ref]) * (len(vs) - 1)
    for v in vs[1:]:
        if set(digs[v]) != set(digs[ref]):
            raise CheckError('%s and %s digested different blocks' % (ref, v))
        diff = sorted(k for k in digs[ref] if digs[ref][k] != digs[v][k])
        if not diff:
            continue
        k = diff[0].split()
        rows = {}
        for w in (ref, v):
            r = run([ex[w]] + args + ['type=' + k[0], 'block=' + k[1]])
            rows[w] = dict(((x.split()[0], x.split()[1], x.split()[2], x.split()[3]), x) for x in r.rows)
        bad = [(a, rows[v].get(key)) for key, a in sorted(rows[ref].items()) if rows[v].get(key) != a]
        if not bad:
            raise CheckError('digest mismatch %s/%s in block %s not reproduced' % (ref, v, diff[0]))
        t, bits, m, p = bad[0][0].split()[:4]
        names = {i: nme for nme, i in M.items()}
        c.violation('type=%s bits=%s mode=%s policy=%s' % (t, bits, names[int(m)], p),
            '%d of %d digests differ; first: %s gives "%s", %s gives "%s"' % (len(diff), len(digs[ref]), ref, bad[0][0], v, bad[0][1]),
            {'program': 'digest', 'variants': [ref, v], 'first': [ref, bad[0][0], v, bad[0][1]], 'argv': ['check=digest', 'seed=%d' % SEED, 'type=' + t, 'bits=' + bits], 'exe': v})
    c.samples = c.samples or ['digest "%s" = %s in all of %s' % (k, digs[ref][k], ', '.join(vs)) for k in sorted(digs[ref])[:4]]
    return c.finish()

# ---------------------------------------------------------------------------- histories and threads (threads.cpp)
def thread_programs(v):
    return (v, tab_jobs(FINE, Q('0x29', '0x3f') if v in ('tsan', 'gcc64o0') else '0x3f', 3, 3) + [Job(src('threads.cpp')), Job(fp_src())])
REPLAY['threads'] = lambda rp: build({'main': thread_programs(rp['variant'])})
@check('C16')
def c16():
    c = Check('C16', 'Operations (type, form, mode, policy, bits) from a pool of related families are issued by concurrent threads from the first call on (ThreadSanitizer and plain builds) and, separately, '
        'in permuted histories by forked processes that have never called the library before, and while being interrupted after every instruction (trap flag) by other operations on the same thread; every recorded result of an operation must be equal over all logs. '
        'Non-trivial: calls that overlapped another thread\'s call, interrupting calls, and histories compared.')
    ex = build({v: thread_programs(v) for v in ('tsan', 'gcc64r', 'clang64', 'gcc64o0')}, optional=('clang64',))
    def go(label, v, args, env=None):
        a = args + ['threads=%d' % NCPU]
        r = run([ex[v]] + a)
        c.add('%s %s' % (v, label), r)
        c.judge('%s %s' % (v, label), r, ex[v], lambda f: a, {'program': 'threads', 'variant': v})
        return not c.viol
    for k in range(Q(3, 24)):
        if not go('concurrent', 'tsan', ['check=conc', 'seed=%d' % (SEED * 1000 + k), 'drand=%d' % Q(15000, 30000), 'drep=%d' % Q(3, 10), 'wd=60']):
            return c.finish()
    # without optimisation every load and store the source asks for is there to be interrupted
    if not go('interruptions', 'gcc64o0', ['check=reent', 'seed=%d' % SEED, 'drand=40000', 'drep=%d' % Q(6000, 120000), 'wd=60']):
        return c.finish()
    for v in ('gcc64r', 'clang64'):
        if v not in ex:
            continue
        for k in range(Q(3, 40)):
            if not go('concurrent', v, ['check=conc', 'seed=%d' % (SEED * 1000 + k), 'drand=%d' % Q(40000, 60000), 'drep=%d' % Q(12, 30), 'wd=60']):
                return c.finish()
        if not go('interruptions', v, ['check=reent', 'seed=%d' % SEED, 'drand=40000', 'drep=%d' % Q(3000, 120000), 'wd=60']):
            return c.finish()
        if not go('histories', v, ['check=hist', 'seed=%d' % SEED, 'drand=%d' % Q(40000, 150000), 'drep=%d' % Q(200, 3000), 'frep=%d' % Q(20000, 200000), 'wd=60']):
            return c.finish()
    return c.finish()

# ---------------------------------------------------------------------------- environment (env.cpp)
def env_programs(v):
    return (v, tab_jobs(FINE if v == 'gcc64' else ALLMODES, '0x3f' if v == 'gcc64' or THOROUGH else '0x25', 3, 3) + [Job(src('env.cpp')), Job(fp_src())])
REPLAY['env'] = lambda rp: build({'main': env_programs(rp['variant'])})
@check('C17')
def c17():
    c = Check('C17', 'Each call is executed under 20 environments (rounding direction x FTZ x DAZ x x87 precision, sticky flags clear or set, all exceptions unmasked, foreign numeric locale, varying errno); '
        'MXCSR, x87 control and status word, errno and an allocator counter are read before and after each call and the result is compared with the default environment. '
        'Non-trivial: every distinct input.')
    vs = ['gcc64', 'clang64r', 'gcc32']
    ex = build({v: env_programs(v) for v in vs}, optional=vs[1:])
    for v in vs:
        if v not in ex:
            c.notes.append('build configuration %s does not compile: not observed' % v)
            continue
        w = 'known,sub,dec,struct' if v == 'gcc64' or THOROUGH else 'known,sub'
        r = run([ex[v], 'check=C17', 'seed=%d' % SEED, 'threads=%d' % NCPU, 'work=' + w, 'structk=1', 'frep=1', 'drep=1', 'frand=%d' % Q(1, 200), 'drand=%d' % Q(1, 200)])
        c.add(v, r)
        c.judge(v, r, ex[v], one_bits('C17'), {'program': 'env', 'variant': v})
        if c.viol:
            break
    return c.finish()

# ---------------------------------------------------------------------------- helpers (helpers.cpp)
H_LOG = ['LOG10', 'LOG10N', 'LOG2', 'LOG2N', 'LOG5', 'LOG5N']
H_LOGC = ['LOGC10', 'LOGC2', 'LOGC5']
H_ALL = ['CACHE', 'CACHEC', 'UMUL64', 'UMUL128', 'UMUL128U', 'UMUL192', 'UMUL96', 'DIV2', 'DIV5', 'DIV5N', 'MUL', 'DELTA', 'EQFRAC', 'INFO']
def helper_programs(v, groups, tabs=False, log5step=1):
    jobs = [Job(src('helpers_tab.cpp'), ['H_' + g] + (['LOG5_STEP=%d' % log5step] if g == 'LOGC5' else []), ['-fconstexpr-steps=200000000'] if VARIANTS[v][0] == 'clang++' else ['-fconstexpr-ops-limit=2000000000'], name='h_' + g, optional=True) for g in groups]
    return (v, jobs + (tab_jobs(FINE, '0x21', 2, 0) if tabs else []) + [Job(src('helpers.cpp'))])
REPLAY['helpers'] = lambda rp: build({'main': helper_programs(rp['variant'], rp['groups'], rp.get('tabs', False))})
def missing_groups(c, ex, v):
    for job, out in ex['_missing'].get(v, []):
        c.notes.append('%s: helper group %s does not compile (renamed or changed signature): not observed' % (v, job.name[2:]))
def convention_fatal(r):
    return r.fatal and not r.bad and 'outside=1' not in r.fatal and kv(r.fatal).get('mode') in ('5', '12', '13', '14') and kv(r.fatal).get('kind') == '4'
def judge_helper(c, label, r, exe, argv, rep):
    """BAD lines of helpers.cpp are keyed by helper and arguments; replaying re-runs the same command."""
    for b in r.bad:
        f = kv(b)
        c.violation(' '.join('%s=%s' % (k, f[k]) for k in ('helper', 'arg', 'args', 'exponent', 'f') if k in f), label + ': ' + b, dict(rep, argv=argv))
    r.bad = []
    if r.rc == 1:
        r.rc = 0
    for k in r.stats:
        if k.startswith('convention_changed_'):
            c.notes.append('%s: %s answers by another convention than the one known here: not judged' % (label, k[19:]))
    if not c.viol:
        c.judge(label, r, exe, lambda f: argv, rep)
def constexpr_problem(c, ex, group):
    """The table of this group is produced by constant evaluation, which is an interpreter that stops on undefined behaviour."""
    for v in ex['_missing']:
        for job, out in ex['_missing'][v]:
            if job.name == 'h_' + group and any(x in out for x in ('overflow in constant expression', 'outside the range of representable values', 'undefined', 'not a constant expression', '__assert_fail')):
                if any(j.name == 'h_' + (group[:-1] if group == 'CACHEC' else group.replace('C', '')) for j, _ in ex['_missing'][v]):
                    continue   # the helper itself is gone
                line = next((l for l in out.splitlines() if 'error' in l), out[:200])
                c.violation('constant-evaluation ' + group, '%s: constant evaluation of the table fails: %s' % (v, line.strip()), {'program': 'helpers', 'variant': v, 'groups': [group], 'argv': []})

@check('C18')
def c18():
    c = Check('C18', 'Every argument of each helper\'s documented range is evaluated at run time (asserting and non-asserting form; plain, 32-bit and UBSan builds) and by the compilers\' constant evaluators, and compared with '
        'the exact floor obtained from bit lengths of exactly computed powers of 5 and 10. Non-trivial: every nonzero argument (the logarithm is irrational).')
    vs = ['gcc64', 'clang64r', 'gcc32', 'asan', 'ubsan32', 'gccsan']
    ex = build({v: helper_programs(v, H_LOG + (H_LOGC if v in ('gcc64', 'clang64r', 'gcc32') else []), log5step=1 if v == 'gcc64' or THOROUGH else 8) for v in vs}, optional=vs[1:])
    for g in H_LOGC:
        constexpr_problem(c, ex, g)
    for v in vs:
        if v not in ex:
            c.notes.append('build configuration %s does not compile: not observed' % v)
            continue
        missing_groups(c, ex, v)
        argv = ['check=C18', 'seed=%d' % SEED, 'threads=1']
        r = run([ex[v]] + argv)
        c.add(v, r)
        judge_helper(c, v, r, ex[v], argv, {'program': 'helpers', 'variant': v, 'groups': H_LOG + H_LOGC})
        if c.viol:
            break
    c.nontriv = max([x['observed'].get('distinct_nontrivial', 0) for x in c.runs] or [0])
    c.exhaustive = 'every argument in the documented range of each of the three helpers'
    return c.finish()

@check('C19')
def c19():
    c = Check('C19', 'Every stored power is compared bit for bit with the value obtained by exact division/truncation of 5^|k| (run time and constant evaluation); then every binade of both types is converted in all modes, with edge, structured and '
        'random significands, under AddressSanitizer, UBSan bounds checking and assertions, so that a power requested outside the table is caught at the access. Non-trivial: distinct powers plus distinct inputs driven.')
    vs = ['gcc64', 'gcc32', 'clang64r']
    ex = build(dict({v: helper_programs(v, ['CACHE', 'CACHEC']) for v in vs}, range=helper_programs('asan', [], True), range32=helper_programs('ubsan32', [], True)), optional=vs[1:] + ['range32'])
    constexpr_problem(c, ex, 'CACHEC')
    for v in vs:
        if v not in ex:
            continue
        missing_groups(c, ex, v)
        argv = ['check=C19', 'threads=1']
        r = run([ex[v]] + argv)
        if r.fatal and not r.bad and 'outside=1' not in r.fatal:
            # a request inside [min_k, max_k] made by this monitor crashed; requests made by the library are driven below
            c.notes.append('%s: the accessor rejects the arguments used here: not observed: %s' % (v, r.fatal))
            continue
        c.add(v, r)
        judge_helper(c, v, r, ex[v], argv, {'program': 'helpers', 'variant': v, 'groups': ['CACHE', 'CACHEC']})
        if c.viol:
            return c.finish()
    c.nontriv = max([x['observed'].get('distinct_nontrivial', 0) for x in c.runs] or [0])
    for e in ('range', 'range32'):
        if e not in ex:
            continue
        for s in range(Q(1, 40)):
            argv = ['check=range', 'seed=%d' % (SEED + s), 'threads=%d' % NCPU]
            r = run([ex[e]] + argv)
            c.add('all binades ' + e, r)
            if r.fatal and 'outside=1' not in r.fatal and not ('get_cache' in r.err or 'cache_holder' in r.err):
                # stopped by something that is not a request outside the table (that is C13's subject)
                c.notes.append('%s: workload ended early for a reason unrelated to the stored powers: %s' % (e, r.fatal))
                break
            def one(f):
                return argv
            c.judge('all binades ' + e, r, ex[e], one, {'program': 'helpers', 'variant': 'asan' if e == 'range' else 'ubsan32', 'groups': [], 'tabs': True})
            if c.viol:
                return c.finish()
    c.exhaustive = 'every stored power of both tables'
    return c.finish()

@check('C20')
def c20():
    c = Check('C20', 'Products and divisibility answers are compared with base-2^16 schoolbook multiplication and plain division for all pairs of boundary operands and for random operands shaped to produce carries; the scaled products, interval lengths and '
        'equality tests are evaluated in every binade with the exact power and compared with exact rational arithmetic. Built with and without __int128 (64- and 32-bit), gcc and clang, and under UBSan. Non-trivial: distinct operand tuples.')
    vs = ['gcc64', 'clang64r', 'gcc32', 'gcc32r', 'clang32r', 'asan', 'ubsan32']
    g = [x for x in H_ALL if x not in ('CACHE', 'CACHEC')]
    ex = build({v: helper_programs(v, g) for v in vs}, optional=vs[1:])
    for v in vs:
        if v not in ex:
            c.notes.append('build configuration %s does not compile: not observed' % v)
            continue
        missing_groups(c, ex, v)
        full = v in ('gcc64', 'gcc32r', 'clang64r')
        argv = ['check=C20', 'seed=%d' % SEED, 'threads=%d' % NCPU, 'drand=%d' % (Q(200000, 20000000) if full else Q(20000, 1000000)), 'structk=%d' % (Q(3, 200) if full else Q(1, 10)), 'sub=%d' % (1 if full else Q(5, 1))]
        r = run([ex[v]] + argv)
        if convention_fatal(r):
            # helpers whose parameters follow an internal convention reject the arguments used here;
            # if the library itself calls them with arguments that crash, C13 sees it
            c.notes.append('%s: an internal helper rejects the arguments used here (changed convention?): not observed: %s' % (v, r.fatal))
            r = run([ex[v]] + argv + ['structk=0', 'opt=1'])
        c.add(v, r)
        judge_helper(c, v, r, ex[v], argv, {'program': 'helpers', 'variant': v, 'groups': g})
        if c.viol:
            break
    return c.finish()

# ---------------------------------------------------------------------------- handlers (handlers.cpp)
FORMS = ['temporaries', 'lvalues', 'const-lvalues', 'moved', 'const-rvalues', 'lambda', 'function-pointer', 'non-copyable-handler', 'mixed', 'logging-mode-and-policy', 'rendering']
def handler_programs(v):
    full = v == 'gcc64o1' or THOROUGH
    forms = range(10) if full else (0, 7) if v == 'asan' else (0, 2, 9)
    jobs = []
    for t in ('float', 'double'):
        jobs += [Job(src('handlers_tab.cpp'), ['FORM=%d' % i, 'TAB_TYPE=' + t, 'FORM_ALL=%d' % (full and i in (8, 10))], name='form%d_%s' % (i, t), optional=i != 0) for i in list(forms) + [10]]
    return (v, jobs + tab_jobs(ALLMODES if not THOROUGH else FINE, '0x1f' if full else '0x03', 3) + [Job(fp_src()), Job(src('handlers.cpp'))])
REPLAY['handlers'] = lambda rp: build({'main': handler_programs(rp['variant'])})
@check('C21')
def c21():
    c = Check('C21', 'Handlers that record, count and throw are passed in eleven forms (temporary, lvalue, const, moved, lambda, function pointer, non-copyable, mixed, with logging mode and policy objects, and through the text calls) in all modes, and the event log of each call is checked: '
        'one handler event, with the exact bits, on the object passed, before any mode or policy event; exceptions arrive unchanged; the result equals that of the plain call. Default handler: non-finite inputs in forked children must die by SIGABRT in assertion builds. '
        'Non-trivial: every distinct pattern.')
    vs = ['gcc64o1', 'clang64r', 'gcc32', 'asan']
    ex = build({v: handler_programs(v) for v in vs}, optional=vs[1:])
    for v in vs:
        if v not in ex:
            c.notes.append('build configuration %s does not compile: not observed' % v)
            continue
        for job, out in ex['_missing'].get(v, []):
            i = int(job.name[4:].split('_')[0])
            if i in (1, 2, 3, 4, 8, 10):
                line = next((l for l in out.splitlines() if 'error' in l), out[:200])
                c.violation('form ' + FORMS[i], '%s: calls passing objects in form %s are rejected by the compiler although temporaries are accepted: %s' % (v, FORMS[i], line.strip()), {'program': 'handlers', 'variant': v, 'argv': []})
            else:
                c.notes.append('%s: form %s does not compile: not observed' % (v, FORMS[i]))
        argv = ['check=C21', 'seed=%d' % SEED, 'threads=%d' % NCPU, 'structk=1', 'frep=1', 'drep=1']
        if v != 'asan':   # unwinding is very slow under AddressSanitizer
            argv += ['work=' + Q('known', 'known,struct,sub'), 'frand=%d' % Q(v == 'gcc64o1', 20), 'drand=%d' % Q(v == 'gcc64o1', 20)]
        else:
            argv += ['work=' + Q('', 'known'), 'drand=0']
        r = run([ex[v]] + argv)
        c.add(v, r)
        c.judge(v, r, ex[v], one_bits('C21'), {'program': 'handlers', 'variant': v})
        if c.viol:
            break
    return c.finish()

# ---------------------------------------------------------------------------- replay
def replay(doc):
    rc = 0
    for v in doc['violations'][:5]:
        rp = v['replay']
        if rp.get('program') == 'conv':
            ex = build({'main': conv_programs(doc['property'], rp['variant'])})
            exe = ex['main']
        else:
            ex = REPLAY[rp['program']](rp)
            exe = ex[rp.get('exe', 'main')]
        if len(rp.get('variants', [])) == 2:
            rows = [run([ex[v2]] + rp['argv']).rows for v2 in rp['variants']]
            for a, b in zip(*rows):
                if a != b:
                    print('%s: %s\n%s: %s' % (rp['variants'][0], a, rp['variants'][1], b))
                    rc = 1
            continue
        r = run([exe] + rp['argv'])
        print('--- %s\n$ %s\n%s%s' % (v['key'], ' '.join(rp['argv']), r.out[-3000:], r.err[-3000:]))
        if r.bad or r.fatal or r.rc:
            rc = 1
    return rc
