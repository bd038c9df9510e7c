"""Runs the programs of a D01 script in an interpreter of its own.
argv: script.json out.pickle directory"""
import imp
import json
import os
import pickle
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))


def to_str(o):
    if isinstance(o, unicode):
        return o.encode('utf-8')
    if isinstance(o, list):
        return [to_str(x) for x in o]
    if isinstance(o, dict):
        return dict((to_str(k), to_str(v)) for k, v in o.iteritems())
    return o


class Finder(object):
    def __init__(self, blocked, ext):
        self.blocked, self.ext = frozenset(blocked), ext

    def find_module(self, name, path=None):
        if name.split('.')[0] in self.blocked or name == 'la.cflabel':
            return self

    def load_module(self, name):
        if name == 'la.cflabel' and self.ext:
            if name not in sys.modules:
                sys.modules[name] = imp.load_dynamic(name, self.ext)
            return sys.modules[name]
        raise ImportError('No module named %s (not installed)' % name)


def main():
    script = to_str(json.load(open(sys.argv[1])))
    c = script['config']
    ext = {'pyx': os.environ.get('SIM_CFLABEL_SO'), 'c': os.environ.get('SIM_CFLABEL_C_SO'),
           'none': None}[c['ext']]
    sys.meta_path.insert(0, Finder(c['absent'], ext))
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ['SIM_REPO'])
    out = {'import': None}
    try:
        import la
        out['ext'] = 'la.cflabel' in sys.modules
        out['io'] = hasattr(la, 'IO')
        import install_programs
        out['results'] = install_programs.run(script, sys.argv[3])
    except Exception:
        import traceback
        out['import'] = traceback.format_exc()
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(out, f, 2)

main()
