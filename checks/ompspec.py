"""The library translated with its parallel loops."""
import os
from sa import build, core


def program():
    return core.harness('omp', [], tus=build.sources(), cxxflags=['-fopenmp', '-I' + os.path.join(build.VERIF, 'stubs', 'omp')])
