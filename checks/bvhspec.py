"""The search tree with the box operations referred to by name."""
from sa import build, core


def program():
    tus = [t for t in build.sources() if t.startswith('core/') and t.split('/')[-1] not in ('mesh.cpp', 'completion.cpp')]
    return core.harness('bvh', [], tus=tus, opaque=[r'tinymesh::Bounds<double, 3>::(distance|inside|area|maxExtent)\('])
