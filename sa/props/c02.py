"""Abstract interpretation of MultiVolume.populate_atoms with opaque members
(their interior test is one unknown boolean per member and point, their
population replaces stale atoms): for every weak ordering of the priorities of
up to four members (five in the thorough tier), every order of addition, and
after re-population or re-prioritisation, the presence condition of every atom
is computed as a decision diagram and compared with the priority rule."""
from . import prio


def run(c):
    prio.sweep(c, "multi", "atoms", ["MultiVolume.populate_atoms"], "priority rule of multi-volumes")
