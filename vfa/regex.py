"""Languages of regular expressions: derivatives over a small alphabet, with complement and intersection.

Only what file name patterns use: literals, classes, repetition, alternatives, anchors at the ends, negative and positive lookahead."""
import re._parser as sp

EMPTY = ("0",)
EPS = ("1",)


def lang(patterns, full=()):
    """compile several patterns over one common alphabet -> list of language terms (of whole names), alphabet"""
    ps = [sp.parse(p) for p in patterns]
    lits = set()
    for p in ps:
        collect(p, lits)
    other = next(chr(c) for c in range(0x2460, 0x2500) if chr(c) not in lits)
    digit = next((d for d in "7654321098" if d not in lits), "7")
    alpha = frozenset(lits | {other, digit})
    out = []
    for i, p in enumerate(ps):
        out.append(seq(list(p), alpha, anchored=i in full))
    return out, alpha


def collect(p, lits):
    for op, av in p:
        op = str(op)
        if op in ("LITERAL", "NOT_LITERAL"):
            lits.add(chr(av))
        elif op == "IN":
            for o, a in av:
                if str(o) == "LITERAL":
                    lits.add(chr(a))
                elif str(o) == "RANGE":
                    lits.add(chr(a[0]))
                    lits.add(chr(a[1]))
        elif op == "BRANCH":
            for b in av[1]:
                collect(b, lits)
        elif op == "SUBPATTERN":
            collect(av[-1], lits)
        elif op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            collect(av[2], lits)
        elif op in ("ASSERT", "ASSERT_NOT"):
            collect(av[1], lits)


def anything(alpha):
    return star(("c", alpha))


def cls(items, alpha):
    s, neg = set(), False
    for o, a in items:
        o = str(o)
        if o == "NEGATE":
            neg = True
        elif o == "LITERAL":
            s.add(chr(a))
        elif o == "RANGE":
            s |= {c for c in alpha if a[0] <= ord(c) <= a[1]}
        elif o == "CATEGORY":
            a = str(a)
            if a.endswith("NOT_DIGIT"):
                s |= {c for c in alpha if not c.isdigit()}
            elif a.endswith("DIGIT"):
                s |= {c for c in alpha if c in "0123456789"}
            elif a.endswith("NOT_WORD"):
                s |= {c for c in alpha if not (c.isalnum() or c == "_")}
            elif a.endswith("WORD"):
                s |= {c for c in alpha if c.isalnum() or c == "_"}
            elif a.endswith("NOT_SPACE"):
                s |= {c for c in alpha if not c.isspace()}
            else:
                s |= {c for c in alpha if c.isspace()}
    return frozenset(alpha - s if neg else s & alpha)


def seq(items, alpha, anchored):
    """the items, followed by anything unless anchored"""
    if not items:
        return EPS if anchored else anything(alpha)
    (op, av), rest = items[0], items[1:]
    op = str(op)
    if op == "AT":
        at = str(av)
        if at in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            return seq(rest, alpha, anchored)
        if at in ("AT_END", "AT_END_STRING"):
            return seq(rest, alpha, True)
        raise ValueError(at)
    if op == "ASSERT_NOT" and av[0] == 1:
        return conj([neg(seq(list(av[1]), alpha, False)), seq(rest, alpha, anchored)])
    if op == "ASSERT" and av[0] == 1:
        return conj([seq(list(av[1]), alpha, False), seq(rest, alpha, anchored)])
    if op == "BRANCH":
        return alt([seq(list(b) + rest, alpha, anchored) for b in av[1]])
    if op == "SUBPATTERN":
        return seq(list(av[-1]) + rest, alpha, anchored)
    if op in ("MAX_REPEAT", "MIN_REPEAT"):
        lo, hi, body = av
        b = seq(list(body), alpha, True)
        tail = seq(rest, alpha, anchored)
        if hi == sp.MAXREPEAT:
            tail = cat(star(b), tail)
        else:
            for _ in range(hi - lo):
                tail = alt([cat(b, tail), seq(rest, alpha, anchored)])
        for _ in range(lo):
            tail = cat(b, tail)
        return tail
    if op == "LITERAL":
        c = ("c", frozenset({chr(av)}))
    elif op == "NOT_LITERAL":
        c = ("c", alpha - {chr(av)})
    elif op == "ANY":
        c = ("c", alpha)
    elif op == "IN":
        c = ("c", cls(av, alpha))
    else:
        raise ValueError(op)
    return cat(c, seq(rest, alpha, anchored))


def cat(a, b):
    if a is EMPTY or b is EMPTY or a == EMPTY or b == EMPTY:
        return EMPTY
    if a == EPS:
        return b
    if b == EPS:
        return a
    if a[0] == ".":
        return (".", a[1], cat(a[2], b))
    return (".", a, b)


def star(a):
    return a if a[0] == "*" else EPS if a in (EPS, EMPTY) else ("*", a)


def alt(xs):
    s = set()
    for x in xs:
        if x[0] == "|":
            s |= x[1]
        elif x != EMPTY:
            s.add(x)
    if ("!", EMPTY) in s:
        return ("!", EMPTY)
    return EMPTY if not s else next(iter(s)) if len(s) == 1 else ("|", frozenset(s))


def conj(xs):
    s = set()
    for x in xs:
        if x[0] == "&":
            s |= x[1]
        elif x == EMPTY:
            return EMPTY
        elif x != ("!", EMPTY):
            s.add(x)
    return ("!", EMPTY) if not s else next(iter(s)) if len(s) == 1 else ("&", frozenset(s))


def neg(a):
    return a[1] if a[0] == "!" else ("!", a)


def null(a):
    k = a[0]
    if k in "1*":
        return True
    if k in "0c":
        return False
    if k == ".":
        return null(a[1]) and null(a[2])
    if k == "|":
        return any(null(x) for x in a[1])
    if k == "&":
        return all(null(x) for x in a[1])
    return not null(a[1])


_memo = {}


def deriv(a, c):
    key = (a, c)
    if key in _memo:
        return _memo[key]
    k = a[0]
    if k in "01":
        r = EMPTY
    elif k == "c":
        r = EPS if c in a[1] else EMPTY
    elif k == ".":
        r = cat(deriv(a[1], c), a[2])
        if null(a[1]):
            r = alt([r, deriv(a[2], c)])
    elif k == "*":
        r = cat(deriv(a[1], c), a)
    elif k == "|":
        r = alt([deriv(x, c) for x in a[1]])
    elif k == "&":
        r = conj([deriv(x, c) for x in a[1]])
    else:
        r = neg(deriv(a[1], c))
    _memo[key] = r
    return r


def witness(a, alpha, limit=20000):
    """a shortest word of the language, None when it is empty"""
    from collections import deque
    seen = {a}
    q = deque([(a, "")])
    while q:
        x, w = q.popleft()
        if null(x):
            return w
        for c in sorted(alpha):
            y = deriv(x, c)
            if y != EMPTY and y not in seen:
                seen.add(y)
                q.append((y, w + c))
                if len(seen) > limit:
                    raise ValueError("too many states")
    return None


def accepts(a, word, alpha, other):
    for ch in word:
        a = deriv(a, ch if ch in alpha else other)
    return null(a)


# ---------------------------------------------------------------- automata
class Dfa:
    """minimal automaton of a language term"""

    def __init__(self, a, alpha, limit=5000):
        alpha = sorted(alpha)
        ix, order, tr = {a: 0}, [a], []
        i = 0
        while i < len(order):
            row = []
            for ch in alpha:
                y = deriv(order[i], ch)
                if y not in ix:
                    ix[y] = len(order)
                    order.append(y)
                    if len(order) > limit:
                        raise ValueError("too many states")
                row.append(ix[y])
            tr.append(row)
            i += 1
        part = [1 if null(x) else 0 for x in order]
        while True:
            sig = {}
            new = [sig.setdefault((part[i],) + tuple(part[j] for j in tr[i]), len(sig)) for i in range(len(order))]
            if len(set(new)) == len(set(part)):
                break
            part = new
        self.start = part[0]
        self.acc = {part[i] for i, x in enumerate(order) if null(x)}
        self.tr = {part[i]: [part[j] for j in tr[i]] for i in range(len(order))}
        self.alpha = alpha


def classes(dfas, alpha):
    """one letter per class of letters no automaton tells apart"""
    alpha = sorted(alpha)
    sig = {}
    for i, ch in enumerate(alpha):
        key = tuple(tuple(d.tr[s][i] for s in sorted(d.tr)) for d in dfas)
        sig.setdefault(key, []).append(i)
    return [max(v, key=lambda i: (ord(alpha[i]) < 0x2460, alpha[i].isalnum())) for v in sig.values()]


def explore(dfas, alpha, preds, limit=3000000):
    """{predicate name: shortest word} over words whose membership vector satisfies the predicate; None when there is none"""
    from collections import deque
    alpha = sorted(alpha)
    letters = classes(dfas, alpha)
    start = tuple(d.start for d in dfas)
    back = {start: None}
    q = deque([start])
    found = {}
    vec_seen = set()
    while q:
        s = q.popleft()
        vec = tuple(x in d.acc for x, d in zip(s, dfas))
        if vec not in vec_seen:
            vec_seen.add(vec)
            for nm, p in preds.items():
                if nm not in found and p(vec):
                    w, t = [], s
                    while back[t] is not None:
                        t, i = back[t][0], back[t][1]
                        w.append(alpha[i])
                    found[nm] = "".join(reversed(w))
        for i in letters:
            t = tuple(d.tr[x][i] for x, d in zip(s, dfas))
            if t not in back:
                back[t] = (s, i)
                q.append(t)
                if len(back) > limit:
                    raise ValueError("too many states")
    return found, len(back)
