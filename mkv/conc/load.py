import importlib, os


def modules():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.startswith('c_') and f.endswith('.py'):
            importlib.import_module('mkv.conc.' + f[:-3])
