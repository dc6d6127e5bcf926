"""C01: numpy and numexpr engines return the same values.

For each algorithm, refraction setting and use case both engines are executed symbolically on the
same symbolic request; the pairs of output terms are proved equal by SAT sweeping (z3)."""
import numpy as np

from symx import smt, terms as T
from . import common as C

OUT = ('ecf', 'eot', 'declination', 'zenith', 'azimuth')


def equal(chk, alg, ref, ucs):
    b = C.bounds(1, 1, 1)
    sp = {}
    for uc in ucs:
        for eng in ('numpy', 'numexpr'):
            try:
                ps = C.request(uc, alg, eng, ref, bnds=b)
                chk.paths += len(ps)
                sp[uc, eng] = C.single(ps)
            except C.Divergence as e:
                chk.unproved(f'{alg}/{eng}/{uc} answers every valid request', 'c01', dict(alg=alg, ref=ref), str(e))
                return
            chk.functions.add(f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}.sunpos')
    roots = {k: {o: C.nodes(getattr(v, o)).reshape(-1)[0] for o in OUT} for k, v in sp.items()}
    allr = [n for r in roots.values() for n in r.values()]
    chk.nodes += len(T.topo(allr))
    P = smt.Prover(b, C.sample_env(1, 1, 1, 60))
    pts = P.cover(allr)
    for uc in ucs:
        for o in OUT:
            x, y = roots[uc, 'numpy'][o], roots[uc, 'numexpr'][o]
            cx, cy = P.canon(x), P.canon(y)
            name = f'{alg} refraction={ref} {uc} {o}: numpy = numexpr'
            if cx is cy:
                chk.proved(name)
            else:
                chk.unproved(name, 'c01', dict(alg=alg, ref=ref, ucs=[uc], pts=C.points(P)), str(T.show(cx, 3))[:200])
    # vacuity: a perturbed engine is not proved equal
    z = roots[ucs[0], 'numpy']['zenith']
    w = T.add(roots[ucs[0], 'numexpr']['zenith'], T.mul(T.const(1e-4), T.fn('sin', T.var('o0', 'R'))))
    if P.canon(z) is P.canon(w):
        raise RuntimeError('the prover accepts a false equality')
    chk.vacuity += 1
    precision(chk, alg, ref, ucs, roots)
    C.validate(chk, [(uc, alg, eng, ref, sp[uc, eng], (1, 1, 1)) for uc in ucs for eng in ('numpy', 'numexpr')])


def precision(chk, alg, ref, ucs, roots):
    """terms of latitude or longitude alone lose at most 5e-5 to single precision"""
    for v, (lo, hi) in (('a0', (-90, 90)), ('o0', (-180, 180))):
        ok, worst = C.f32_loss([n for r in roots.values() for n in r.values()], v, lo, hi, 5e-5)
        name = f'{alg} refraction={ref}: single precision costs terms of {v} less than 5e-5'
        if ok:
            chk.proved(name, f'largest loss {worst:.2e}')
        else:
            pts = [[int(946728000 + 7919*317*k), w, 0.] if v == 'a0' else [int(946728000 + 7919*317*k), 10., w] for k in range(40) for w in
                   np.linspace(lo, hi, 400, endpoint=False)[(k % 7)::7].tolist() + [lo, hi - 1e-3, lo + 1e-2, hi - 1e-2]]
            chk.unproved(name, 'c01', dict(alg=alg, ref=ref, ucs=['transect'], pts=pts), f'loss {worst}')


def main(chk):
    chk.bounds = ['time: every whole second of 1950-01-01..2099-12-31 (UTC)', 'latitude [-90, 90], longitude [-180, 180), all reals',
                  'one time, one latitude, one longitude per request (other shapes: C02)',
                  'floating point read as reals; single-precision inputs of latitude and longitude bounded separately; '
                  'rounding of the cosine of zenith to six decimals (psa/numpy) not counted']
    chk.assumptions = ['numpy/numexpr/pandas calendar primitives have their documented meaning', 'z3']
    jobs = [(equal, (alg, ref, C.USECASES), ('c01', dict(alg=alg, ref=ref))) for alg in ('iqbal', 'psa', 'soltrack') for ref in (True, False)]
    chk.run_jobs(jobs)
