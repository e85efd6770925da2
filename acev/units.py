"""Proof units: one unit = one symbolic harness over real functions of /repo."""


class Unit:
    """fn(ctx) builds symbolic inputs satisfying the preconditions, runs the real code and checks the postconditions.

    functions: the functions of /repo put under contract by the unit.
    bounded: '' for an unbounded proof, otherwise the bound (such a unit is never counted as proved).
    assumes: assumptions of the unit."""

    def __init__(self, name, fn, functions, bounded='', assumes=(), max_paths=400, tier='quick'):
        self.name, self.fn, self.functions, self.bounded = name, fn, list(functions), bounded
        self.assumes, self.max_paths, self.tier = list(assumes), max_paths, tier
