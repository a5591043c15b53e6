"""nrel: NREL's SPA (Reda and Andreas), against pvlib's own implementation."""
from .. import gen
from ._model import conform

CASES = (4000, 60000)
LIMIT = (70, 700)
RULE = ('random and adversarial (times, places, shapes, use case, refraction), years -2000 to 6000, '
        'including the sub-solar point, its antipode, the horizon, the poles, calendar boundaries, numexpr '
        'block sizes; every output compared at up to 1200 probed points with an independent double-precision '
        'SPA. Distinct: use case / engine / refraction / size regime / day-night content / century')
REQUIRED = ['direction of the sun', 'declination', 'eot', 'ecf', 'shape']
ASSUMPTIONS = ["pvlib.spa is a faithful SPA (it is validated against NREL's reference output)",
               'delta_t = 67 s, sea level, 1013.25 hPa and 12 degC, as sunwhere fixes them']


def case(ctx, i):
    if i % 101 == 7:
        s = gen.huge(ctx.rng, [('nrel', 'numexpr')], turn=i // 101)
    else:
        s = gen.scenario(ctx.rng, [('nrel', 'numexpr')])
    conform(ctx, s, 2e-6, True, {'declination': 1e-6, 'eot': 1e-5, 'ecf': 1e-9}, 1200)
