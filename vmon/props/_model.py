"""Conformance of the values of an algorithm to its published model."""
import numpy as np

from .. import api, gen, ref
from ..api import HORIZON


def conform(ctx, s, base, exact, tols, npts, represent=None):
    ctx.current = s.describe()
    sp = api.run(s)
    v = api.values(sp)
    for f, shape in (('zenith', s.shape), ('azimuth', s.shape), ('declination', s.shape[:1]),
                     ('eot', s.shape[:1]), ('ecf', s.shape[:1])):
        if not ctx.check(v[f].shape == tuple(shape), 'shape', field=f, got=v[f].shape, want=shape):
            return
    flat = gen.probe_points(ctx.rng, s, npts)
    (t, lat, lon), mi = s.triples(flat)
    r = ref.evaluate(s.algorithm, t, lat, lon, s.refraction)
    z, a = v['zenith'].ravel()[flat], v['azimuth'].ravel()[flat]

    day = 'D' if len(t) == 0 else ('n' if r['zenith'].min() > 91 else 'd' if r['zenith'].max() < 90 else 'x')
    era = 'E%d' % (int(s.t[0] // 31556952 // 100))
    sig = api.sig(s, day, era)
    wit = lambda k: dict(time=str(np.datetime64(int(t[k]), 's')), lat=lat[k], lon=lon[k],
                         got=[z[k], a[k]], expected=[r['zenith'][k], r['azimuth'][k]])
    e = api.sky_excess(z, a, r['zenith'], r['azimuth'], base, exact)
    if s.refraction:    # the model is discontinuous at the threshold
        e = np.where(np.abs(r['zenith_true'] - HORIZON) < 1e-3, 0., e)
    api.judge(ctx, 'direction of the sun', e, sig, wit)
    ctx.maximum('zenith difference (deg), sun 1 deg off the vertical',
                np.max(np.abs(z - r['zenith']), where=(np.sin(np.radians(r['zenith'])) > .0175)
                       & (np.abs(r['zenith_true'] - HORIZON) > 1e-3), initial=0.))
    k = np.unique(mi[0])
    pick = {int(x): i for i, x in enumerate(mi[0])}
    j = np.array([pick[int(x)] for x in k])
    for f, tol in tols.items():
        if f == 'declination' and not exact:
            tol = tol + 0 * k
        got = v[f][k]
        api.judge(ctx, f, api.excess(got, r[f][j], tol), None,
                  lambda i, f=f, got=got: dict(time=str(np.datetime64(int(s.t[k[i]]), 's')),
                                               got=got[i], expected=r[f][j][i]))
    ctx.sample(scenario=s.describe(), point=wit(0) if len(t) else None)
