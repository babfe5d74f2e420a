"""helpers shared by the property modules (polymorphic: symbolic terms or CPython values)"""
from .. import sdt, sym, snp
from ..sym import And, Or, Not, Implies, If, Eq, Abs
DAY_US = 86400 * 10**6
def contract_list():
    L = []
    def contract(c): L.append(c()); return c
    return L, contract
class Only:
    """stub bound in the named module only"""
    def __init__(self, v): self.v = v
class Shadow:
    """stub under a name that hides a builtin in the named module"""
    def __init__(self, v): self.v = v
def close(a, b, tol):
    """|a-b| <= tol (absolute); exact on symbolic values when tol is 0"""
    if sym._symbolic(a, b):
        d = a - b
        return Eq(d, 0) if tol == 0 else And(d <= tol, d >= -tol) if isinstance(tol, float) and tol >= .5 else Eq(d, 0)
    return abs(a - b) <= tol
def elapsed_us(e, d): return (sdt.ordinal(d) - sdt.ordinal(e)) * DAY_US + (sdt.usod(d) - sdt.usod(e))
def elem(arr, *ix):
    if isinstance(arr, (snp.SArr, snp.SMArr)): return arr.elem(*ix)
    return arr[ix]
