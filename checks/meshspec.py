"""The harness functions over the mesh classes."""
from sa import core, build, interp, shape as S


def program():
    return core.harness('mesh', ['mesh.cpp'], tus=[t for t in build.sources() if t.startswith('core/')])


def fn(P, name):
    return P.find(r'^%s\(' % name)
