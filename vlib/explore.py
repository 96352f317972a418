"""Deviation-bounded stateless exploration: replay a prefix of choices, then take the
default (0) at every later point; branch on every alternative within the budget."""


class Divergence(BaseException):
    pass


class Chooser:
    """Records choice points; `prefix` is replayed, later points take option 0."""

    def __init__(self, prefix, maxpoints):
        self.prefix = prefix
        self.maxpoints = maxpoints
        self.points = []  # (kind, noptions, cost-of-alternatives)
        self.choices = []
        self.capped = False

    def choose(self, kind, n):
        if n <= 1:
            return 0
        i = len(self.points)
        if i >= self.maxpoints:
            self.capped = True
            return 0
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Divergence("choice %d of %d at point %d (%s)" % (c, n, i, kind))
        self.points.append((kind, n))
        self.choices.append(c)
        return c


def explore(run, budgets, maxpoints=200, limit=None, deadline=None):
    """run(chooser) executes once.  budgets: {kind: max number of non-default choices}.
    Yields (chooser, result).  Depth first, simplest prefixes first."""
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix, maxpoints)
        res = run(ch)
        n += 1
        yield ch, res
        if limit is not None and n >= limit:
            return
        if deadline is not None and deadline():
            return
        used = {}
        for i, c in enumerate(ch.choices[:len(prefix)]):
            if c:
                used[ch.points[i][0]] = used.get(ch.points[i][0], 0) + 1
        new = []
        for i in range(len(prefix), len(ch.points)):
            kind, k = ch.points[i]
            if used.get(kind, 0) >= budgets.get(kind, 0):
                continue
            tot = budgets.get("total")
            if tot is not None and sum(used.values()) >= tot:
                continue
            for alt in range(1, k):
                new.append(tuple(ch.choices[:i]) + (alt,))
        stack.extend(reversed(new))
