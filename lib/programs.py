"""Which translation units make up the simulation program of each property."""
from build import table, unit


# Every function of the library is a call of its own, with a frame of its own: what refers to a frame that is gone reads garbage.
APART = ['-Dalways_inline=noinline']


def narrow(alg):
    """The library configured by its macros for 31 basis vectors (32-bit sets), int constants and float as its default types, beside the default configuration."""
    return ['ga=ga_c31', '%s=%s_c31' % (alg, alg), 'ALG_HEADER="gatl/%s.hpp"' % alg, 'GA_MAX_BASIS_VECTOR_INDEX=31', 'GA_DEFAULT_INTEGRAL_TYPE=int', 'GA_DEFAULT_FLOATING_POINT_TYPE=float']


def site_tables(prefix, scalar, calls, mixed):
    k = dict(scalar=scalar, calls=calls)
    eu = ['sites_euclidean'] + (['sites_mixed'] if mixed else [])
    return [
        table(prefix + 'ga3e_core', 'ga3e', 3, ['sites_core'], **k),
        table(prefix + 'ga3e_core2', 'ga3e', 3, ['sites_core2'], **k),
        table(prefix + 'ga3e_euclid', 'ga3e', 3, eu, **k),
        table(prefix + 'ga2c', 'ga2c', 4, ['sites_conformal'], kinds='kinds_conformal', **k),
        table(prefix + 'ga3c', 'ga3c', 5, ['sites_conformal'], kinds='kinds_conformal', flags=['SMALL', 'NO_ROUND_LOCATION'], **k),
        table(prefix + 'ga2m', 'ga2m', 4, ['sites_conformal'], kinds='kinds_conformal', flags=['SMALL', 'NO_ROUND_LOCATION'], **k),
        table(prefix + 'ga1m', 'ga1m', 3, ['sites_conformal'], kinds='kinds_conformal', **k),
        table(prefix + 'ga2h', 'ga2h', 3, ['sites_homogeneous'], kinds='kinds_homogeneous', **k),
        table(prefix + 'ga3h', 'ga3h', 4, ['sites_homogeneous'], kinds='kinds_homogeneous', **k),
        table(prefix + 'ga3e_ext1', 'ga3e', 3, ['sites_ext1'], **k),
        table(prefix + 'ga3e_ext2', 'ga3e', 3, ['sites_ext2'], **k),
        table(prefix + 'ga3e_ext3', 'ga3e', 3, ['sites_ext3'], **k),
        table(prefix + 'ga3e_nat1', 'ga3e', 3, ['sites_native1'], **k),
        table(prefix + 'ga3e_nat2', 'ga3e', 3, ['sites_native2'], **k),
        table(prefix + 'ga3e_nat3', 'ga3e', 3, ['sites_native3'], **k),
        table(prefix + 'ga3e_nat4', 'ga3e', 3, ['sites_native4'], opt=APART, **k),
        table(prefix + 'ga3e_nat5', 'ga3e', 3, ['sites_native5'], **k),
        table(prefix + 'ga2p_plane', 'ga2p', 3, ['sites_plane'], cost=10, **k),
        table(prefix + 'ga2c_2', 'ga2c', 4, ['sites_conformal2'], kinds='kinds_conformal', **k),
        table(prefix + 'ga3c_2', 'ga3c', 5, ['sites_conformal2'], kinds='kinds_conformal', **k),
        table(prefix + 'ga2m_2', 'ga2m', 4, ['sites_conformal2'], kinds='kinds_conformal', **k),
        table(prefix + 'ga1m_2', 'ga1m', 3, ['sites_conformal2'], kinds='kinds_conformal', **k),
        table(prefix + 'ga2h_2', 'ga2h', 3, ['sites_homogeneous2'], kinds='kinds_homogeneous', **k),
        table(prefix + 'ga3h_2', 'ga3h', 4, ['sites_homogeneous2'], kinds='kinds_homogeneous', **k),
    ] + [table(prefix + a, a, d, ['sites_mini'], cost=10, flags=f, **k) for a, d, f in [('ga1e', 1, []), ('ga2e', 2, []), ('ga4e', 4, []), ('ga5e', 5, []), ('ga1h', 2, []), ('ga4h', 5, []), ('ga1p', 2, ['DEGENERATE']), ('ga3p', 4, ['DEGENERATE']), ('ga4p', 5, ['DEGENERATE']), ('ga1c', 3, []), ('ga3m', 5, [])]] + [
        table(prefix + 'ga2p', 'ga2p', 3, ['sites_core'], flags=['LIGHT', 'DEGENERATE'], **k),
        table(prefix + 'gageneral', 'gageneral', 3, ['sites_core'], flags=['DEGENERATE', 'GENERAL_METRIC'], **k),
        table(prefix + 'ga3e_core_n', 'ga3e', 3, ['sites_core'], opt=APART, **k),
        table(prefix + 'ga3e_core2_n', 'ga3e', 3, ['sites_core2'], opt=APART, **k),
        table(prefix + 'ga3h_2_n', 'ga3h', 4, ['sites_homogeneous2'], kinds='kinds_homogeneous', opt=APART, **k),
        table(prefix + 'ga3e_core_c', 'ga3e', 3, ['sites_core'], flags=narrow('ga3e'), **k),
        table(prefix + 'ga3e_core2_c', 'ga3e', 3, ['sites_core2'], flags=narrow('ga3e'), **k),
        table(prefix + 'ga3e_nat1_c', 'ga3e', 3, ['sites_native1'], flags=narrow('ga3e'), **k),
        table(prefix + 'ga1m_2_c', 'ga1m', 3, ['sites_conformal2'], kinds='kinds_conformal', flags=narrow('ga1m'), **k),
        table(prefix + 'ga4e_fast', 'ga4e', 4, ['sites_fast'], opt=['-fno-inline'], cost=40, **k),
        table(prefix + 'ga4e_fast2', 'ga4e', 4, ['sites_fast2'], opt=['-fno-inline'], cost=40, **k),
    ]


COMMON_ASSUMPTIONS = [
    'sequentially consistent execution: races are found by happens-before analysis of the explored schedules, weak-memory reordering itself is not simulated',
    'accesses made inside the compiled C and C++ runtime libraries are not seen by the race detector',
    'one compiler (g++ 11, -O1); other compilers and optimisation levels are not explored',
]
SCHED_STUBS = 'thread scheduling, locks, once-flags, static-initialisation guards, clocks, random sources and the heap are simulated; '

def temporaries_tables():
    k = dict(scalar='hx::S', calls='calls_own.h')
    return [table('t' + i[6:], 'ga3e', 3, [i], flags=['TEMPORARIES'], opt=APART, **k) for i in ['sites_core', 'sites_core2', 'sites_ext1', 'sites_ext2', 'sites_ext3', 'sites_native1', 'sites_native3']] + [
        table('t_ga2c', 'ga2c', 4, ['sites_conformal'], kinds='kinds_conformal', flags=['TEMPORARIES'], **k),
        table('t_ga2h', 'ga2h', 3, ['sites_homogeneous'], kinds='kinds_homogeneous', flags=['TEMPORARIES'], **k)]


def write_tables():
    t = []
    for alg, dim, sc in [('ga3e', 3, 'double'), ('ga3e', 3, 'hx::S'), ('ga2c', 4, 'double'), ('ga2c', 4, 'hx::S'), ('ga3c', 5, 'float'), ('ga1m', 3, 'hx::S'), ('ga2h', 3, 'double'), ('ga2p', 3, 'hx::S'), ('gageneral', 3, 'hx::S'), ('ga2e', 2, 'int'), ('ga4e', 4, 'hx::S')]:
        t.append(table('w%s_%s' % (alg, sc[-1]), alg, dim, ['sites_write'], scalar=sc, calls='calls_write.h', flags=['SPACE=%s::space' % alg] + (['GOLD3'] if alg == 'ga3e' else [])))
    for sc in ['double', 'hx::S']:
        t.append(table('wc_ga3e_%s' % sc[-1], 'ga3e', 3, ['sites_write'], scalar=sc, calls='calls_write.h', flags=['SPACE=ga3e::space', 'GOLD3'] + narrow('ga3e')))
    for alg, dim, sc in [('ga3e', 3, 'double'), ('ga3e', 3, 'hx::S'), ('ga2h', 3, 'double')]:
        t.append(table('w2%s_%s' % (alg, sc[-1]), alg, dim, ['sites_write2'], scalar=sc, calls='calls_write.h', flags=['SPACE=%s::space' % alg]))
    return t


def visit_tables():
    t = []
    for alg, dim, sc in [('ga3e', 3, 'double'), ('ga3e', 3, 'hx::S'), ('ga2c', 4, 'double'), ('ga3c', 5, 'hx::S'), ('ga1m', 3, 'float'), ('ga2h', 3, 'hx::S'), ('gageneral', 3, 'double'), ('ga2e', 2, 'int'), ('ga4e', 4, 'hx::S')]:
        t.append(table('v%s_%s' % (alg, sc[-1]), alg, dim, ['sites_visit'], scalar=sc, calls='calls_visit.h', flags=['SPACE=%s::space' % alg]))
    for alg, dim, sc in [('ga3e', 3, 'hx::S'), ('ga2c', 4, 'double')]:
        t.append(table('vc_%s_%s' % (alg, sc[-1]), alg, dim, ['sites_visit'], scalar=sc, calls='calls_visit.h', flags=['SPACE=%s::space' % alg] + narrow(alg)))
    return t


def copy_tables():
    t = []
    for alg, dim, sc, other in [('ga3e', 3, 'hx::S', 'hx::S'), ('ga3e', 3, 'double', 'float'), ('ga2c', 4, 'hx::S', 'hx::S'), ('ga1m', 3, 'float', 'double'), ('ga2h', 3, 'hx::S', 'hx::S'), ('ga2p', 3, 'double', 'float'), ('gageneral', 3, 'hx::S', 'hx::S'), ('ga2e', 2, 'hx::S', 'hx::S'), ('ga4e', 4, 'double', 'float')]:
        t.append(table('k%s_%s' % (alg, sc[-1]), alg, dim, ['sites_copy'], scalar=sc, calls='calls_copy.h', kinds='kinds_copy', flags=['OTHER_CF=' + other] + (['SRC_CF=double'] if other == 'hx::S' else [])))
    for alg, dim, sc, other in [('ga3e', 3, 'hx::S', 'hx::S'), ('ga2h', 3, 'double', 'float')]:
        t.append(table('kc_%s_%s' % (alg, sc[-1]), alg, dim, ['sites_copy'], scalar=sc, calls='calls_copy.h', kinds='kinds_copy', flags=['OTHER_CF=' + other] + (['SRC_CF=double'] if other == 'hx::S' else []) + narrow(alg)))
    return t


def lazy_tables():
    t = []
    for alg, dim, sc, inc, fl in [('ga3e', 3, 'hx::S', 'sites_lazy', []), ('ga3e', 3, 'double', 'sites_lazy', []), ('ga3e', 3, 'hx::S', 'sites_lazy2', []), ('ga3e', 3, 'double', 'sites_lazy2', []),
                                  ('ga2c', 4, 'hx::S', 'sites_lazy', []), ('ga1m', 3, 'float', 'sites_lazy', []), ('ga2h', 3, 'hx::S', 'sites_lazy', []), ('ga2p', 3, 'double', 'sites_lazy2', []), ('ga2e', 2, 'double', 'sites_lazy', []), ('ga3e', 3, 'hx::S', 'sites_lazy3', []), ('ga3e', 3, 'double', 'sites_lazy3', []), ('ga4e', 4, 'double', 'sites_lazy3', []), ('ga3e', 3, 'hx::S', 'sites_lazy4', []), ('ga3e', 3, 'double', 'sites_lazy4', []), ('ga2h', 3, 'double', 'sites_lazy', ['CALLS_APART']), ('ga3e', 3, 'double', 'sites_lazy2', ['CALLS_APART']), ('gageneral', 3, 'hx::S', 'sites_lazy', [])]:
        apart = 'CALLS_APART' in fl
        t.append(table('l%s_%s%s%s' % (alg, sc[-1], inc[-1], 'n' * apart), alg, dim, [inc], scalar=sc, calls='calls_lazy.h', kinds='kinds_lazy', flags=['SPACE=%s::space' % alg], opt=APART if apart else ()))
    for alg, dim, sc, inc in [('ga3e', 3, 'hx::S', 'sites_lazy'), ('ga3e', 3, 'double', 'sites_lazy2'), ('ga2c', 4, 'hx::S', 'sites_lazy')]:
        t.append(table('lc_%s_%s%s' % (alg, sc[-1], inc[-1]), alg, dim, [inc], scalar=sc, calls='calls_lazy.h', kinds='kinds_lazy', flags=['SPACE=%s::space' % alg] + narrow(alg)))
    return t


PROGRAMS = {
    'C06': dict(
        units=lambda: lazy_tables() + [unit('harness/c06.cpp', instr=False)],
        quick_s=40, thorough_s=1500,
        rule='A run is a seeded sequence of 1 to 7 (thorough: to 36) lazy contexts made from lvalues, temporaries or both, each of which is then returned, copied, moved, kept on the heap, in a lambda, in a container or shared by 1 to 3 simulated threads, while its inputs are modified and destroyed, dead stack is overwritten and freed memory reused; it is then evaluated, possibly several times, and the value is compared with the one computed directly on the inputs; every read, move and destruction of a coefficient is checked against a lifecycle registry.',
        stubs=SCHED_STUBS + 'in half of the tables the coefficient type is a stand-in that owns a heap cell and reports its lifecycle',
        assumptions=COMMON_ASSUMPTIONS),
    'C04': dict(
        units=lambda: copy_tables() + [table('k2ga3e_S', 'ga3e', 3, ['sites_copy'], scalar='hx::S', calls='calls_copy.h', kinds='kinds_copy', flags=['OTHER_CF=hx::S', 'SRC_CF=double', 'SECOND_UNIT']), table('k2ga3e_e', 'ga3e', 3, ['sites_copy'], scalar='double', calls='calls_copy.h', kinds='kinds_copy', flags=['OTHER_CF=float', 'SECOND_UNIT'])] + [unit('harness/copy_common.cpp', instr=False), unit('harness/c04.cpp', instr=False)],
        quick_s=40, thorough_s=1500,
        rule='A run is a fresh process with 1 to 5 simulated threads that make seeded implicit conversions of 1 to 3 kinds (some kinds are made in two translation units), usually the same kind at the same moment, while std::clog works, is slow, accepts only part, throws, cannot flush, has no buffer or has failed before, with any exception mask, and may recover; what reaches the device of std::clog is attributed to calls and compared with the kinds converted, and every conversion is checked against an independent statement of the components.',
        stubs=SCHED_STUBS + 'the buffers behind std::clog, std::cerr and std::cout are stand-ins; in most tables the coefficient type is one too',
        assumptions=COMMON_ASSUMPTIONS + ['one insertion into std::clog is one write to its device, as with the standard buffer that is synchronised with C streams']),
    'C05': dict(
        units=lambda: copy_tables() + [unit('harness/copy_common.cpp', instr=False), unit('harness/c05.cpp', instr=False)],
        quick_s=40, thorough_s=1500,
        rule='A run is a seeded sequence of 1 to 8 (thorough: to 38) copies between expression types (trivial_copy, checked_trivial_copy with and without a tolerance, implicit conversions of lvalues, rvalues, arguments and returned values, assignments through a conversion) over several algebras and coefficient types, spread over 1 to 3 simulated threads, on values at and around the tolerance; in some, the n-th copy of a coefficient throws, after which the copy is repeated. Every copy is checked against an independent statement of the components of source and target.',
        stubs=SCHED_STUBS + 'in most tables the coefficient type is a stand-in that owns memory and whose copies fail on request',
        assumptions=COMMON_ASSUMPTIONS + ['only coefficient copies and conversions fail, not arithmetic: the products of the library are declared noexcept']),
    'C03': dict(
        units=lambda: visit_tables() + [unit('harness/c03.cpp', instr=False)],
        quick_s=40, thorough_s=1500,
        rule='A run is a seeded sequence of 1 to 8 (thorough: to 38) traversals (for_each_component, for_each_basis_vector, is_zero) of expressions of all layouts in several algebras, spread over 1 to 3 simulated threads; at a seeded call the callback cancels, cancels and changes its mind, throws one of five kinds of exception, or makes a traversal of its own of the same or another expression, which may itself cancel or throw; every callback is also a point where other threads may run.',
        stubs=SCHED_STUBS + 'callbacks and, in some tables, the coefficient type are stand-ins',
        assumptions=COMMON_ASSUMPTIONS),
    'C02': dict(
        units=lambda: write_tables() + [unit('harness/c02.cpp', instr=False)],
        quick_s=40, thorough_s=1500,
        rule='A run is a seeded sequence of 1 to 8 (thorough: to 38) writes of expressions (constant, stored, runtime-blade, mixed, lazy; built-in and user-defined coefficients; several algebras) through operator<< or write() with various basis names and formatting states, each to one of the two streams of its simulated thread, with at most one fault per write at a seeded byte, flush or coefficient; after every write the stream recovers and the write is repeated on it.',
        stubs=SCHED_STUBS + 'the device behind the stream buffers and, in most tables, the coefficient type with its inserter are stand-ins; std::ostream and its formatting are real',
        assumptions=COMMON_ASSUMPTIONS + ['the width of the stream is 0 when a write starts']),
    'C07': dict(
        units=lambda: site_tables('o', 'hx::S', 'calls_own.h', False) + [
            table('own_ga3e', 'ga3e', 3, ['sites_own'], scalar='hx::S', calls='calls_own.h', flags=['SPACE=ga3e::space']),
            table('own_ga2h_n', 'ga2h', 3, ['sites_own'], scalar='hx::S', calls='calls_own.h', flags=['SPACE=ga2h::space'], opt=APART),
            table('own_ga2c', 'ga2c', 4, ['sites_own'], scalar='hx::S', calls='calls_own.h', flags=['SPACE=ga2c::space']),
            ] + temporaries_tables() + [unit('harness/c07.cpp', instr=False)],
        quick_s=45, thorough_s=1500,
        rule='A run is a seeded sequence of 1 to 8 (thorough: to 38) calls of public operations, copies, moves, assignments, conversions and lazy evaluations on operands whose coefficients own memory, spread over 1 to 3 simulated threads; after every call the operands are checked, modified, destroyed and their memory reused while the result is checked to stay the same, and every read, move and destruction of a coefficient is checked against a lifecycle registry.',
        stubs=SCHED_STUBS + 'the coefficient type is a stand-in that owns a heap cell and reports its lifecycle',
        assumptions=COMMON_ASSUMPTIONS + ['where a failing coefficient operation ends the process because the operation of the library is declared noexcept, it is not made to fail']),
    'C01': dict(
        units=lambda: site_tables('', 'double', 'calls_iso.h', True) + [unit('harness/c01.cpp', instr=False)],
        quick_s=45, thorough_s=1500,
        rule='A run is a seeded sequence of 2 to 14 (thorough: to 54) calls of public operations over several algebras, on near-duplicate operand values, some repeated or preceded by many other calls of the same operation, spread over 1 to 4 simulated threads under a seeded schedule; each call is compared bit for bit with the same call alone in a fresh process.',
        stubs=SCHED_STUBS + 'operands are built-in floating-point and integer coefficients',
        assumptions=COMMON_ASSUMPTIONS),
}
