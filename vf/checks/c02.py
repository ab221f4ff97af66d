"""C02: move relocates exactly the branch it was asked to move."""

from vf import jobs as J
from vf import treeops

ID = "C02"


def jobs(tier):
    return J.plain(tier, n={"NS": 4, "AL": 4, "MP": 4}, pos={"NS": 4, "AL": 3, "MP": 3}, small=4, lt_chars="0A")


def initial(job):
    return treeops.expand_seed(job)


def expand(job, state):
    return treeops.expand(job, state, ("move",), ("append", "left", "delete"))


replay = treeops.replay
