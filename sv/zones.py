"""Definition of the legal use of one zone."""
from .pyvc import And, Implies, Or
from .tl import TMAX


class Costs:
    """switching times: any non-negative integers"""
    def __init__(self, H):
        self.H, self.v = H, {}

    def __getitem__(self, ab):
        a, b = ab
        if (a, b) not in self.v:
            self.v[a, b] = self.H.int(f'cost{a}{b}', 0, TMAX, rhi=4)
        return self.v[a, b]


def legal(H, start, books, costs, label):
    """the definition: bookings (s, e, status) of one zone that has the status `start` at 0"""
    out = []
    for i, (s, e, q) in enumerate(books):
        out.append(s >= 0)
        for j, (a, b, p) in enumerate(books):
            if j > i and p != q:
                out.append(Or(e <= a, b <= s, s >= e, a >= b))
        first = And(*[Or(z[0] >= z[1], z[0] >= s) for j, z in enumerate(books) if j != i])
        if q != start:
            out.append(Implies(And(first, s < e), s >= costs[start, q]))
        for j, (a, b, p) in enumerate(books):
            if j == i or p == q:
                continue
            # j is the latest one started before i: the switch takes place after everything that started till then
            latest = And(s < e, a < b, a < s, *[Or(z[0] >= z[1], z[0] <= a, z[0] >= s) for k, z in enumerate(books) if k not in (i, j)])
            out.append(Implies(latest, And(*[Or(z[0] >= z[1], z[0] > a, s >= z[1] + costs[p, q])
                                             for k, z in enumerate(books) if k != i])))
    H.check(And(*out), label)
