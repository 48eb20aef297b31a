import sys, os, importlib, glob
from mc import core


def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    if prop == '--setup':
        import omgtools, casadi, numpy
        print('casadi', casadi.__version__, 'numpy', numpy.__version__)
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = jobs = None
    while a:
        x = a.pop(0)
        if x in ('quick', 'thorough'):
            tier = x
        elif x == '--replay':
            replay = a.pop(0)
        elif x == '--jobs':
            jobs = int(a.pop(0))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    f = glob.glob(os.path.join(core.VERIF, 'mc', prop.lower() + '_*.py'))
    mod = importlib.import_module('mc.' + os.path.basename(f[0])[:-3])
    sys.exit(core.main(prop, mod, tier, seed, replay, jobs))


if __name__ == '__main__':
    main()
