"""C01: a new node lands exactly where it was asked to go, and nothing else moves."""

from vf import jobs as J
from vf import treeops

ID = "C01"


def jobs(tier):
    return J.plain(tier)


def initial(job):
    return treeops.expand_seed(job)


def expand(job, state):
    return treeops.expand(job, state, ("insert",), ("delete",))


replay = treeops.replay
