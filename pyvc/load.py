"""Import the Python sources of /repo/pymbs with the stand-in for the C++ module."""
import os
import sys
import types

sys.dont_write_bytecode = True
REPO = os.environ.get('PYVC_REPO', '/repo')


def setup():
    if 'pymbs' in sys.modules:
        return
    from . import shim
    sys.path.insert(0, REPO)
    sys.modules['pymbs.symbolics.symbolics'] = shim

    def stub(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m

    for n in ('pymbs.ui.gui', 'pymbs.ui.integrator', 'pymbs.ui.pi_recorder', 'pymbs.ui.matlab_player',
              'pymbs.ui.compile', 'pymbs.ui.thread', 'pymbs.ui.matplotlibwidget'):
        stub(n, launchGui=None, Integrator=None, PIRecorder=None, MatlabPlayer=None, compileF90=None,
             compileC=None, PyMbsThread=None, MatplotlibWidget=None)
    import pymbs.symbolics
    pymbs.symbolics.symbolics = shim
