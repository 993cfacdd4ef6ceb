import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))
sys.setrecursionlimit(20000)
MODULES = ['threads', 'trmul', 'blocks', 'cache', 'alloc', 'fpenv', 'front', 'bounds', 'share', 'clamp', 'api', 'prof']


def main():
    import report
    prop = sys.argv[1]
    for m in MODULES:
        mod = importlib.import_module(m)
        if prop in mod.CHECKS:
            report.main(prop, mod.CHECKS[prop])
    print('no check for ' + prop)
    sys.exit(2)


if __name__ == '__main__':
    main()
