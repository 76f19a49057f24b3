"""Stateless exploration: enumerate all choice sequences of a run."""


class Chooser:
    def __init__(self, prefix):
        self.prefix, self.taken, self.width = list(prefix), [], []
        self.labels = []

    def choose(self, n, label=""):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("replay diverged: the run is not a function of the choices")
        self.taken.append(c)
        self.width.append(n)
        self.labels.append(label)
        return c


def explore(run, maxdev=None, limit=None):
    """run(chooser) for every choice sequence (at most maxdev non-default
    choices); returns the number of executions and whether all were run"""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        run(ch)
        n += 1
        if limit and n >= limit:
            return n, not stack
        dev = sum(1 for c in prefix if c)
        if maxdev is not None and dev >= maxdev:
            continue
        for i in range(len(ch.taken) - 1, len(prefix) - 1, -1):
            for c in range(1, ch.width[i]):
                stack.append(ch.taken[:i] + [c])
    return n, True
