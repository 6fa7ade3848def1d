"""Loading the optimised and the reference variant of every decorated routine, in one symbolic universe."""
from .common import *

CH = ('shenfun.spectralbase', 'shenfun.la', 'shenfun.chebyshev', 'shenfun.chebyshev.la', 'shenfun.chebyshev.bases',
      'shenfun.optimization', 'shenfun.optimization.cython')


def with_channel(F):
    for n in CH:
        if n not in F:
            F[n] = load.Fake(n)
    return F


def module(V, U, solver, optimization, precision='double', mesh=None, loops=None, extra=()):
    """The solver module as get_solver returns it for this configuration (no context)."""
    F = with_channel(shen.fakes_periodic(U))
    ov = {'spectralDNS.shen.LUsolve': load.Fake('spectralDNS.shen.LUsolve')}
    L = load.Loader(F, loops=loops, overrides=ov)
    sd = L.load('spectralDNS')
    sd.config.params.N = [8]*U.dim
    args = ['--precision', precision]
    if optimization:
        args += ['--optimization', optimization]
    s = sd.get_solver(mesh=mesh or MESH.get(solver, 'channel'), parse_args=args + list(extra) + [solver])
    V.files |= L.files
    return s, L
