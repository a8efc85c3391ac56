"""stand-in for more_itertools.powerset (more_itertools is not installed here)"""
import itertools
def powerset(iterable):
    s = list(iterable)
    return itertools.chain.from_iterable(itertools.combinations(s, r) for r in range(len(s) + 1))
