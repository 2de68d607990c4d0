"""case registry shared by the harness modules"""


class Case:
    def __init__(self, fn, quick, thorough, cost):
        self.fn, self.quick, self.thorough, self.cost = fn, quick, thorough, cost


def case(cases, quick=(None,), thorough=None, cost=1):
    """register a harness function; ``quick``/``thorough`` list the bounds it is run with"""
    def deco(fn):
        cases[fn.__name__] = Case(fn, list(quick), list(thorough if thorough is not None else quick), cost)
        return fn
    return deco
