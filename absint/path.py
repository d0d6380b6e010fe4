"""Enumeration of the abstract paths: a path is the list of its decisions; the tree of decisions is walked depth first."""
from values import Pruned, Undecided


class Path:
    def __init__(self, prefix, limit=4000):
        self.prefix, self.taken, self.limit = prefix, [], limit

    def choose(self, n, label):
        if n <= 0:
            raise Pruned()
        if n == 1:
            return 0
        i = len(self.taken)
        if i >= self.limit:
            raise Undecided('decision budget')
        if i < len(self.prefix):
            c = self.prefix[i][0]
            if self.prefix[i][1] != n:
                raise Undecided('unstable decision %s' % label)
        else:
            c = 0
        self.taken.append((c, n, label))
        return c


def next_prefix(taken):
    """The next leaf, in depth first order."""
    for i in range(len(taken) - 1, -1, -1):
        c, n, label = taken[i]
        if c + 1 < n:
            return taken[:i] + [(c + 1, n, label)]
    return None
