"""Which summarised kernel plays which role."""
import ast
from ssqlint.project import dotted
from checks.c03 import registries, kernel_keys


def stem(name):
    n = name.strip('_')
    for suf in ('_par', '_parallel', '_gpu'):
        if n.endswith(suf):
            n = n[:-len(suf)]
    return n


ALIASES = {'accumulated_penalty_energy_fw': 'penalty_fw', 'accumulated_penalty_energy_fwp': 'penalty_fw',
           'accumulated_penalty_energy_bw': 'penalty_bw', 'accumulated_penalty_energy_bwp': 'penalty_bw'}


def roles(proj, ks):
    """{role: [Summ]} by function name, registry key and GPU kernel name/key."""
    out = {}

    def add(role, s):
        role = ALIASES.get(role, role)
        l = out.setdefault(role, [])
        if s not in l:
            l.append(s)
    keyed = {}
    for (mod, base), d in registries(proj, ks).items():
        for u in d.values():
            add(base, u)
            keyed.setdefault(u.name, base)
    for n, s in ks.cpu.items():
        if n not in keyed:
            add(stem(n), s)
    kk = {kn: key for _, key, kn, _ in kernel_keys(proj, ks)}
    for n, l in ks.gpu.items():
        for g in l:
            add(kk.get(n, n), g)
    # kernels stored under a key must play the role of the key
    return out
