"""The numpy and numexpr engines of an algorithm describe the same sky."""
import numpy as np

from .. import api, gen, ref
from ..api import HORIZON

CASES = (6000, 60000)
LIMIT = (70, 700)
RULE = ('random and adversarial (algorithm, use case, times, places, shapes, refraction) evaluated with both '
        'engines, under numexpr pools of 1 to 8 threads; all the elements of all the outputs compared. Distinct: '
        'use case / algorithm / refraction / size regime / log2 of the size')
REQUIRED = ['engines agree']
ASSUMPTIONS = ['both engines may round coordinates to single precision: up to 0.035 deg within 0.05 deg of the '
               'vertical, 5e-5 deg elsewhere; the jump of the refraction at its threshold (+-0.001 deg) is excluded']


def case(ctx, i):
    rng = ctx.rng
    s = gen.huge(rng, gen.FAST, most=21, turn=i // 127) if i % 127 == 7 else gen.scenario(rng, gen.FAST)
    a, b = api.run(s, engine='numpy'), api.run(s, engine='numexpr')
    compare(ctx, s, api.values(a), api.values(b))


def compare(ctx, s, a, b, monitor='engines agree'):
    ctx.current = s.describe()
    ctx.check(all(a[f].shape == b[f].shape for f in a), monitor + ' on the shapes',
              shapes=[{f: v.shape for f, v in x.items()} for x in (a, b)])
    for f, tol in (('declination', 1e-7), ('eot', 1e-6), ('ecf', 1e-9)):
        api.judge(ctx, monitor, api.excess(a[f], b[f], tol), None,
                  lambda k, f=f: dict(field=f, values=[a[f][k], b[f][k]], time=str(np.datetime64(int(s.t[k]), 's'))))
    e = api.sky_excess(a['zenith'], a['azimuth'], b['zenith'], b['azimuth']) * .5

    def where(k):
        (t, lat, lon), _ = s.triples(np.array([k]))
        return dict(time=str(np.datetime64(int(t[0]), 's')), lat=lat[0], lon=lon[0],
                    one=[a[f].ravel()[k] for f in ('zenith', 'azimuth')],
                    other=[b[f].ravel()[k] for f in ('zenith', 'azimuth')])
    if s.refraction and (e > 1).any():
        e = e.copy()
        for k in np.flatnonzero(e.ravel() > 1)[:3000]:
            (t, lat, lon), _ = s.triples(np.array([k]))
            zt = ref.evaluate(s.algorithm, t, lat, lon, False)['zenith']
            if abs(zt[0] - HORIZON) < 1e-3:
                e.ravel()[k] = 0.
    api.judge(ctx, monitor, e, api.sig(s, int(np.log2(max(1, s.size)))), where)
    ctx.sample(scenario=s.describe())
