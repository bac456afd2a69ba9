"""Translation units: which sources of /repo are extracted together."""
import os, glob
from . import cxx

EXCLUDE = ('schema_validation.cpp', 'Adaptor.cpp', 'EquationDerivativeCache.cpp', 'Costgradienthandler.cpp', 'grazer.cpp', 'commands.cpp')


def sources(*dirs):
    out = []
    for d in dirs:
        for r, ds, fs in os.walk(os.path.join(cxx.REPO, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.cpp') and f not in EXCLUDE:
                    out.append(os.path.relpath(os.path.join(r, f), cxx.REPO))
    return sorted(out)


_cache = {}


def model():
    if 'model' not in _cache:
        _cache['model'] = cxx.Program(sources('src/Model', 'src/Auxillary', 'src/Newtonsolver'))
    return _cache['model']


def opt():
    if 'opt' not in _cache:
        fs = [f for f in sources('src/IpoptWrapper', 'src/Optimization_helpers', 'src/Auxillary/InterpolatingVector', 'src/Auxillary/Exception', 'src/Auxillary/Mathfunctions', 'src/Auxillary/Matrixhandler') if not f.endswith('Wrapper.cpp') and not f.endswith('Initialvalues.cpp')]
        _cache['opt'] = cxx.Program(fs)
    return _cache['opt']


def wrapper():
    if 'wrapper' not in _cache:
        _cache['wrapper'] = cxx.Program(['src/IpoptWrapper/Wrapper.cpp', 'src/IpoptWrapper/Initialvalues.cpp'])
    return _cache['wrapper']


def files():
    if 'files' not in _cache:
        _cache['files'] = cxx.Program(sources('src/Auxillary/Input_Output', 'src/Auxillary/aux_json', 'src/Auxillary/Exception'))
    return _cache['files']
