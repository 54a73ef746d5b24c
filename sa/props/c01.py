"""Abstract interpretation of Scene.populate and of the atom views, with opaque
objects (their interior test is one unknown boolean per object and point, their
population replaces stale atoms): for every weak ordering of the priorities of
up to four objects (five in the thorough tier), every order of addition, and
after re-population or re-prioritisation, the presence condition of every atom
is computed as a decision diagram and compared with the priority rule."""
from . import prio


def run(c):
    prio.sweep(c, "scene", "atoms", ["Scene.populate", "Scene.all_atoms"], "priority rule of scenes")
