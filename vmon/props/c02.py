"""psa, soltrack and iqbal: the published models."""
from .. import gen
from ._model import conform

CASES = (8000, 90000)
LIMIT = (70, 700)
RULE = ('random and adversarial (algorithm, engine, use case, times, places, shapes, refraction), years 1800 '
        'to 2200; every output compared at up to 3000 probed points with independent double-precision '
        'implementations of the published equations. Distinct: use case / algorithm / engine / refraction / size '
        'regime / day-night content / century')
REQUIRED = ['direction of the sun', 'declination', 'eot', 'ecf', 'shape']
ASSUMPTIONS = ['the coefficients of PSA+ (Blanco et al., 2020), SolTrack (van der Sluys and van Kan, 2022) and '
               'Iqbal (1983, ecf and eot series as refitted by the author of sunwhere) typed in vmon/ref.py',
               'single precision of the coordinates in some engines: up to 0.035 deg within 0.05 deg of the '
               'vertical, 5e-5 deg elsewhere']


def case(ctx, i):
    if i % 97 == 7:
        s = gen.huge(ctx.rng, gen.FAST, turn=i // 97)
    else:
        s = gen.scenario(ctx.rng, gen.FAST)
    conform(ctx, s, 5e-5, False, {'declination': 1e-7, 'eot': 1e-6, 'ecf': 1e-9}, 3000)
