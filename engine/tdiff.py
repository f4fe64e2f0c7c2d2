"""smallest places where two normal forms differ"""
from terms import *


def diff(a, b, lim=4):
    out = []
    seen = set()

    def kids(t):
        if t.op == 'poly':
            return [(('mono', tuple((x.op, e) for x, e in m), c), tuple(x for x, e in m)) for m, c in t.a]
        return t.a

    def go(x, y, path):
        if x is y or len(out) >= lim:
            return
        if isinstance(x, T) and isinstance(y, T):
            if (x, y) in seen:
                return
            seen.add((x, y))
            if x.op != y.op:
                out.append((path, x, y))
                return
            if x.op == 'poly':
                dx, dy = dict(x.a), dict(y.a)
                ox = [(m, c) for m, c in x.a if dy.get(m) != c]
                oy = [(m, c) for m, c in y.a if dx.get(m) != c]
                if len(ox) == 1 and len(oy) == 1 and ox[0][1] == oy[0][1] and \
                        [e for _, e in ox[0][0]] == [e for _, e in oy[0][0]]:
                    px = [p for p in ox[0][0] if p not in oy[0][0]]
                    py = [p for p in oy[0][0] if p not in ox[0][0]]
                    if len(px) == 1 and len(py) == 1:
                        go(px[0][0], py[0][0], path)
                        return
                out.append((path, x, y))
                return
            go(x.a, y.a, path + (x.op,))
            return
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                out.append((path, x, y))
                return
            for p, q in zip(x, y):
                go(p, q, path)
            return
        if x != y:
            out.append((path, x, y))
    go(a, b, ())
    return out
