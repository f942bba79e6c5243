# One entry per check.  plan: (build variant, share of the cases), one process
# each; quick/thorough: number of generated cases.
STD = [('asan', 2), ('asan', 2), ('asan', 2), ('scalar', 2), ('scalar', 2), ('avx2', 2), ('plain', 7), ('plainsc', 7)]
MODEL = ['the reference model (engine/iset.h) and the harness are correct; generated cases sample the input space']


def C(src, quick, **kw):
    d = dict(src=src, quick=quick, plan=STD, assumptions=MODEL)
    d.update(kw)
    return d


CHECKS = {
    'C01': C(['props/c01.cpp'], 12500),
    'C02': C(['props/c02.cpp'], 10000),
    'C03': C(['props/c03.cpp'], 15000),
    'C04': C(['props/c04.cpp'], 50000),
    'C05': C(['props/c05.cpp'], 50000),
    'C10': C(['props/c10.cpp'], 7500),
    'C11': C(['props/c11.cpp'], 10000),
    'C12': C(['props/c12.cpp'], 4500),
    'C27': C(['props/c27.cpp'], 25000),
    'C06': C(['props/c06.cpp'], 15000),
    'C07': C(['props/c07.cpp'], 37500),
    'C08': C(['props/c08.cpp'], 7500),
    'C13': C(['props/c13.cpp'], 15000),
    'C14': C(['props/c14.cpp'], 7500),
    'C15': C(['props/c15.cpp'], 37500),
    'C16': C(['props/c16.cpp'], 37500),
    'C17': C(['props/c17.cpp'], 7500),
    'C18': C(['props/c18.cpp'], 7500),
    'C19': C(['props/c19.cpp'], 7500),
    'C20': C(['props/c20.cpp'], 7500),
    'C21': C(['props/c21.cpp'], 200000),
    'C25': C(['props/c25.cpp'], 125000),
    'C22': C(['props/c22.cpp'], 13500, link=['-Wl,--wrap=croaring_hardware_support'], plan=[('asan', 2), ('asan', 2), ('avx2', 2), ('scalar', 2), ('plain', 4), ('plain', 4), ('plain', 4), ('plainsc', 4)]),
    'C23': C(['props/c%02d.cpp' % k for k in list(range(1, 22)) + [25, 23]], 9000, plan=[('plain', 1)] * 7 + [('plainna', 1)],
             link=['-Wl,--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'posix_memalign')]),
    'C24': C(['props/c24.cpp'], 6750, level='fault_enumeration'),
    'C26': C(['props/c26.cpp'], 4000, plan=[('tsan', 1)] * 6 + [('asan', 2)] * 2,
             link=['-Wl,--wrap=__tsan_atomic32_' + f for f in ('fetch_add', 'fetch_sub', 'exchange', 'load', 'store')] + ['-Wl,--wrap=__tsan_atomic_thread_fence']),
    'C09': C(['props/c09.cpp'], 25000),
}
