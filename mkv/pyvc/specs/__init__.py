import importlib, os
for _f in sorted(os.listdir(os.path.dirname(__file__))):
    if _f.endswith('.py') and _f[0] != '_': importlib.import_module(__name__ + '.' + _f[:-3])
