"""names that may be any string: a symbolic code that stands for one of the listed strings or any other one"""
from symx.num import SymBool

OTHER = "nothing of this name"


class SymName(str):
    """compares and hashes by asking the solver which of the listed strings it is"""

    def __new__(cls, code, listed, n):
        s = str.__new__(cls, f"⟦name {n}⟧")
        s.code, s.listed = code, listed
        return s

    def _is(self, o):
        if isinstance(o, SymName):
            return self.code == o.code
        if isinstance(o, str):
            return self.code == self.listed.index(o) if o in self.listed else False
        return False

    def __eq__(self, o):
        return bool(self._is(o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        for i, w in enumerate(self.listed):
            if self.code == i:
                return hash(w)
        return hash(OTHER)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def name(ctx, label, listed):
    """(the name, condition that it is one of given strings)"""
    code = ctx.int(label, 0, len(listed))
    if ctx.symbolic:
        s = SymName(code, list(listed), label)
    else:
        i = int(code)
        s = (list(listed) + [OTHER])[i]

    def among(ws):
        from symx.num import Or

        return Or([code == listed.index(w) for w in ws if w in listed])

    return s, among
