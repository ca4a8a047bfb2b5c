"""Meaning of a tensor index string (the oracle for component lists)."""
import itertools

C3 = ["x", "y", "z"]; C4 = ["t", "x", "y", "z"]; C2 = ["1", "2"]


def kind(ch):
    if "a" <= ch <= "h":
        return C4
    if "i" <= ch <= "p":
        return C3
    if "q" <= ch <= "z":
        return C2
    return None


def parse(s):
    """-> (letters, symmetric groups, antisymmetric groups) or None"""
    s = s.lower()
    if "+" in s or "-" in s:
        terms = []
        cur = ""; sign = 1; signs = []
        for ch in s:
            if ch in "+-":
                terms.append(cur); signs.append(sign); sign = 1 if ch == "+" else -1; cur = ""
            else:
                cur += ch
        terms.append(cur); signs.append(sign)
        base = terms[0]
        terms = [t.strip("()") for t in terms]
        base = terms[0]
        if any(sorted(t) != sorted(base) for t in terms):
            return None
        # positions that get exchanged
        sym = set(); anti = set()
        for t, sg in zip(terms[1:], signs[1:]):
            diff = [k for k in range(len(base)) if t[k] != base[k]]
            if len(diff) == 2:
                (sym if sg > 0 else anti).add(tuple(diff))
        return base, sorted(sym), sorted(anti)
    letters = ""; sym = []; anti = []; st = None
    for ch in s:
        if ch in "([":
            st = (ch, len(letters))
        elif ch in ")]":
            if st is None:
                return None
            g = tuple(range(st[1], len(letters)))
            (sym if st[0] == "(" else anti).append(g)
            st = None
        else:
            if kind(ch) is None:
                return None
            letters += ch
    return letters, sym, anti


def components(s):
    """ordered [(name, (sx,sy,sz))] or None"""
    p = parse(s)
    if p is None:
        return None
    letters, sym, anti = p
    dims = [kind(c) for c in letters]
    out = []
    for t in itertools.product(*[range(len(d)) for d in dims]):
        ok = all(all(t[g[i]] <= t[g[i + 1]] for i in range(len(g) - 1)) for g in sym) and \
            all(all(t[g[i]] < t[g[i + 1]] for i in range(len(g) - 1)) for g in anti)
        if not ok:
            continue
        name = "".join(d[k] for d, k in zip(dims, t))
        sg = [1, 1, 1]
        for d, k in zip(dims, t):
            c = d[k]
            if c in "xyz":
                sg["xyz".index(c)] *= -1
        out.append((name, tuple(sg)))
    return out
