import sys


def selftest():
    """setup_cmd: nothing is built; check that what the monitors need is here"""
    import importlib
    import json
    import os
    import numexpr, numpy, pandas, pvlib, xarray      # noqa: F401, E401
    import sunwhere
    from .harness import ROOT
    ids = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    mods = [importlib.import_module('vmon.props.' + x.lower()) for x in ids]
    assert all(m.__doc__ and m.RULE and m.REQUIRED for m in mods)
    assert sunwhere.__file__.startswith('/repo/'), sunwhere.__file__
    print(f'{len(ids)} properties, numpy {numpy.__version__}, numexpr {numexpr.__version__}, pandas {pandas.__version__}, '
          f'xarray {xarray.__version__}, pvlib {pvlib.__version__}')
    return 0


if __name__ == '__main__':
    if sys.argv[1:] == ['--selftest']:
        sys.exit(selftest())
    from .harness import main
    sys.exit(main(sys.argv[1:]))
