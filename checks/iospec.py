"""Exporting and filling operations of the mesh with the format writers and readers inlined."""
from sa import build, core


def program():
    tus = [t for t in build.sources() if t.startswith('core/') and t.split('/')[-1] != 'external.cpp']
    return core.harness('io', [], tus=tus, api_opaque=False, opaque=[r'tinymesh::Face::isHole\('])
