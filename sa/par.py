"""Cases analysed in parallel worker processes."""
import multiprocessing, os
from .build import AnalysisBroken

_F = _ITEMS = None


def _call(k):
    try:
        return ("ok", _F(_ITEMS[k]))
    except AnalysisBroken as e:
        return ("broken", str(e))


def pmap(f, items):
    """f over items, in order; f must return plain data"""
    global _F, _ITEMS
    _F, _ITEMS = f, list(items)
    n = min(len(os.sched_getaffinity(0)), 8, len(_ITEMS))
    if n < 2:
        return [_call(k) for k in range(len(_ITEMS))]
    with multiprocessing.get_context("fork").Pool(n) as p:
        return p.map(_call, range(len(_ITEMS)), chunksize=1)


def results(f, items):
    """like pmap; fails when the analysis of an item fails"""
    out = []
    for k, v in pmap(f, items):
        if k == "broken":
            raise AnalysisBroken(v)
        out.append(v)
    return out
