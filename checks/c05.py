"""C05: squeezing kernels against the definition of the reassignment."""
from ssqlint.kset import KernelSet
from ssqlint.spec_kernels import SpecSet
from checks.kutil import roles

TECHNIQUE = 'value numbering: kernel normal form compared with the normal form of the definition given by the property'
EXPLANATION = ('Every squeezing, phase and nearest-bin kernel (CPU serial, CPU threaded, CUDA) is reduced to '
               'guarded writes over loop counters and compared with the normal form of the definition: '
               'threshold test, instantaneous frequency, clamped nearest bin, flip, row weight, own column. '
               'The host code is interpreted for every grid type, orientation, weight form and device: the kernel it '
               'selects must play the role of the call, and each grid, weight, threshold and bound it is handed must be '
               'the term the call determines. The numeric and unwrapped-phase derivatives are compared, as terms, with '
               'the finite difference of the requested order.')
ASSUMPTIONS = ['floating-point arithmetic is treated as exact']
KINDS = ('lin', 'log', 'log_piecewise')
ROLES = ['ssq_cwt_' + k for k in KINDS] + ['indexed_sum_' + k for k in KINDS] + ['find_closest_' + k for k in KINDS] \
    + ['ssq_stft', 'phase_cwt', 'phase_stft', 'indexed_sum']


def spec_roles(proj, rep, names, rule):
    ks = KernelSet(proj)
    sp = SpecSet(ks)
    R = roles(proj, ks)
    for role in names:
        ss = R.get(role, [])
        if not ss:
            rep.undecided(rule, role, 'no kernel plays this role')
        for s in ss:
            c = s.where + (' (CUDA)' if s.gpu else '') + ' as ' + role
            rep.count('kernels')

            def one():
                r, text = sp.check(role, s)
                if r == 'equal':
                    rep.good(rule, c, text)
                elif r == 'differ':
                    rep.violation(rule, c, 'definition / code: ' + text, s.mod.rel)
                else:
                    rep.undecided(rule, c, text)
            rep.guard(rule, c, one)
    return ks


def run(proj, rep):
    rep.rule('reassignment', 'kernel == definition of the reassignment')
    spec_roles(proj, rep, ROLES, 'reassignment')
    from checks import host_c05
    host_c05.run(proj, rep)
