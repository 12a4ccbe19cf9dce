"""what a text cell computed by a converter says: a linear reading of the value terms of vfa/pe.py"""
import re

from vfa.pe import is_mag, is_crate
from .common import *


class Unknown(Exception):
    """a shape this reading does not know: no claim is made"""


class Lossy(Exception):
    """part of the source's magnitude does not get through"""


# ------------------------------------------------------------------ alternatives
def decide(c, env):
    if c.op == "const":
        return bool(c.args[0])
    if c in env:
        return env[c]
    if c.op == "not":
        r = decide(c.args[0], env)
        return None if r is None else not r
    if c.op == "bool":
        rs = [decide(x, env) for x in c.args[1]]
        if c.args[0] == "and":
            return False if False in rs else True if all(r is True for r in rs) else None
        return True if True in rs else False if all(r is False for r in rs) else None
    if c.op == "call" and c.args[0] == "builtins.bool" and len(c.args[1]) == 1:
        return decide(c.args[1][0], env)
    return None


def assume(env, c, pol):
    env = dict(env)
    env[c] = pol
    for g, p in split_guard(c, pol):
        env[g] = p
    # unit propagation through decided conjunctions and disjunctions
    changed = True
    while changed:
        changed = False
        for k, v in list(env.items()):
            if k.op == "bool" and (k.args[0] == "and") is (not v):
                rs = [(x, decide(x, env)) for x in k.args[1]]
                neutral = k.args[0] == "and"
                free = [x for x, r in rs if r is None]
                if len(free) == 1 and all(r is neutral for x, r in rs if r is not None):
                    for g, p in split_guard(free[0], not neutral):
                        if g not in env:
                            env[g] = p
                            changed = True
    return env


def empty_text(t):
    """(X, other) for a conditional that reads the empty text X as nought"""
    if t.op != "ite":
        return None
    c, a, b = t.args
    x = None
    if c.op == "cmp" and c.args[0] == "==" and is_str(c.args[2]) and c.args[2].args[0] == "":
        x, zero, other = c.args[1], a, b
    elif c.op == "meth" and c.args[1] == "strip" or c.op == "sub":
        x, zero, other = c, b, a
    if x is not None and zero.op == "const" and not isinstance(zero.args[0], bool) and zero.args[0] in (0, 0.0, "0", "0.0"):
        return x, other
    return None


def first_ite(t):
    """a conditional inside t that is not the reading of an empty text"""
    if t.op == "ite":
        e = empty_text(t)
        if e is None:
            return t
        return first_ite(e[1])
    for k in t.kids():
        r = first_ite(k)
        if r is not None:
            return r
    return None


def pick(t, env, memo):
    """t with the conditionals env decides replaced by what they choose"""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "ite" and empty_text(t) is None:
        d = decide(t.args[0], env)
        if d is not None:
            r = pick(t.args[1] if d else t.args[2], env, memo)
    if r is None:
        def rec(a):
            if isinstance(a, Node):
                return pick(a, env, memo)
            if isinstance(a, tuple):
                return tuple(rec(x) for x in a)
            return a
        args = rec(t.args)
        r = t if args == t.args else rebuild(t.op, args)
    memo[t] = r
    return r


def rebuild(op, args):
    try:
        if op == "str":
            return T.str_(args)
        if op == "bin":
            return T.bin_(*args)
        if op == "sub" and args[0].op in ("list", "tuple") and args[1].op == "const" and isinstance(args[1].args[0], int):
            return args[0].args[args[1].args[0]]
    except (IndexError, TypeError):
        pass
    return mk(op, *args)


def variants(cells, env=None, limit=64):
    """the joint alternatives of several terms: (what was assumed, the terms without conditionals)"""
    out = []

    def rec(ts, env):
        if len(out) >= limit:
            raise Unknown("too many alternatives")
        for t in ts:
            i = first_ite(t)
            if i is not None:
                c = i.args[0]
                d = decide(c, env)
                for p in ((True, False) if d is None else (d,)):
                    e = assume(env, c, p) if d is None else env
                    memo = {}
                    rec([pick(x, e, memo) for x in ts], e)
                return
        out.append((env, ts))
    rec(list(cells), dict(env or {}))
    return out


# ------------------------------------------------------------------ numbers
def scale(d, k):
    return {x: v * k for x, v in d.items()}


def plus(a, b):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + v
    return d


def number(d):
    return d.get((), 0) if set(d) <= {()} else None


class Reading:
    def __init__(self, env, whole=False):
        self.env = env
        self.whole = whole      # int() is no loss: the source is a count
        self.fmts = []          # (decimals, size of the last digit relative to the leaf's coefficient)

    def num(self, t):
        """linear form {leaf or (leaf, part): coefficient, (): constant} of a numeric term or of a text of a number"""
        if is_mag(t):
            return {t: 1.0}
        if t.op == "const":
            v = t.args[0]
            if isinstance(v, bool) or v is None:
                raise Unknown(show(t))
            if isinstance(v, str):
                try:
                    return {(): float(v)}
                except ValueError:
                    raise Unknown(show(t))
            return {(): float(v)}
        e = empty_text(t)
        if e is not None:
            return self.num(e[1])
        if t.op == "bool" and t.args[0] == "or" and len(t.args[1]) == 2 and t.args[1][1].op == "const" and t.args[1][1].args[0] in (0, 0.0, "0", "0.0"):
            return self.num(t.args[1][0])
        if t.op == "call":
            f, a, kw = t.args[0], t.args[1], t.args[2]
            if f in ("builtins.float", "builtins.str", "decimal.Decimal", "fractions.Fraction") and len(a) == 1:
                return self.num(a[0])
            if f in ("builtins.int", "math.floor", "math.ceil", "math.trunc") and len(a) == 1:
                r = self.num(a[0])
                if number(r) is None and not self.whole:
                    raise Lossy(f"{f.split('.')[-1]}() drops the fraction")
                return r
            if f == "builtins.round" and a:
                r = self.num(a[0])
                if number(r) is not None:
                    return r
                if len(a) == 1:
                    if self.whole:
                        return r
                    raise Lossy("round() drops the fraction")
                if isnum_(a[1]):
                    self.fmts.append((int(a[1].args[0]), r))
                    return r
            raise Unknown(show(t, maxd=3))
        if t.op == "fmt":
            spec = t.args[1].args[0] if isinstance(t.args[1], Node) else t.args[1]
            r = self.num(t.args[0])
            m = re.fullmatch(r"0?\d*(?:\.(\d+))?f", str(spec or ""))
            if m:
                self.fmts.append((int(m.group(1) or 6), r))
            elif spec not in ("", None, "d", "s"):
                raise Unknown(f"format {spec}")
            return r
        if t.op == "str":
            ps = list(t.args)
            if len(ps) == 1:
                return self.num(ps[0])
            if is_str(ps[0]) and ps[0].args[0] == "-":
                return scale(self.num(T.str_(ps[1:])), -1)
            if is_str(ps[-1]):
                m = re.fullmatch(r"[eE]([-+]?\d+)", ps[-1].args[0])
                if m:
                    return scale(self.num(T.str_(ps[:-1])), 10.0 ** int(m.group(1)))
            raise Unknown(show(t, maxd=3))
        if t.op == "un":
            r = self.num(t.args[1])
            return scale(r, -1) if t.args[0] == "-" else r
        if t.op == "bin":
            op, a, b = t.args
            if op == "+":
                return plus(self.num(a), self.num(b))
            if op == "-":
                return plus(self.num(a), scale(self.num(b), -1))
            if op in ("*", "/"):
                x, y = self.num(a), self.num(b)
                ny, nx = number(y), number(x)
                if op == "*" and ny is not None:
                    return scale(x, ny)
                if op == "*" and nx is not None:
                    return scale(y, nx)
                if op == "/" and ny:
                    return scale(x, 1 / ny)
            if op == "//":
                x, y = self.num(a), self.num(b)
                if number(x) is None and number(y):
                    raise Lossy("// drops the fraction")
            raise Unknown(show(t, maxd=3))
        if t.op == "meth":
            recv, name, a = t.args[0], t.args[1], t.args[2]
            if name in ("strip", "lstrip", "rstrip", "ljust", "rjust") and (not a or not is_str(a[0]) or not a[0].args[0].strip() or a[0].args[0] in ("C", "C ", " C")):
                return self.num(recv)
            if name == "replace" and len(a) == 2 and is_str(a[0]) and is_str(a[1]) and a[1].args[0] == "" and a[0].args[0] in ("C", " ", " C", "+"):
                return self.num(recv)
            if name == "total_seconds" and not a:
                return self.span(recv)
            raise Unknown(show(t, maxd=3))
        if t.op == "sub":
            p = piece(t)
            if p is not None:
                return {p: 1.0}
        if t.op == "attr" and t.args[1] == "seconds":
            r = self.span(t.args[0])
            if number(r) is None:
                raise Lossy(".seconds drops the fraction")
            return r
        raise Unknown(show(t, maxd=3))

    def span(self, t):
        """seconds of a time difference"""
        if t.op == "bin" and t.args[0] == "-":
            return plus(self.moment(t.args[1]), scale(self.moment(t.args[2]), -1))
        if t.op == "bin" and t.args[0] == "+":
            return plus(self.span(t.args[1]), self.span(t.args[2]))
        if t.op == "call" and t.args[0] == "datetime.timedelta":
            per = {"days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "milliseconds": 1e-3, "microseconds": 1e-6}
            if t.args[1]:
                raise Unknown(show(t, maxd=3))
            d = {(): 0.0}
            for k, v in t.args[2]:
                k = k.args[0] if isinstance(k, Node) else k
                if k not in per:
                    raise Unknown(show(t, maxd=3))
                d = plus(d, scale(self.num(v), per[k]))
            return d
        raise Unknown(show(t, maxd=3))

    def moment(self, t):
        if t.op == "call" and t.args[0].endswith("strptime") and len(t.args[1]) == 2 and is_str(t.args[1][1]):
            text, f = t.args[1][0], t.args[1][1].args[0]
            if is_str(text):
                if re.fullmatch(r"[0:. ]*", text.args[0]):
                    return {(): 0.0}
                raise Unknown(show(t, maxd=3))
            ls = {x for x in walk(text) if is_mag(x)}
            if len(ls) != 1:
                raise Unknown(show(t, maxd=3))
            if f not in ("%H:%M:%S", "%H:%M:%S.%f"):
                raise Lossy(f"a Maccor time is hours, minutes and seconds, it is read as {f}")
            leaf = ls.pop()
            if not f.endswith("%f") and any(p_split(x, leaf) for x in walk(text)) and self.fraction(leaf) is not False:
                raise Lossy("the fraction of the seconds is dropped")
            return {leaf: 1.0}
        if t.op == "meth" and t.args[1] == "replace":
            kw = {(k.args[0] if isinstance(k, Node) else k): v for k, v in t.args[3]}
            if set(kw) == {"microsecond"}:
                u = kw["microsecond"]
                ls = {x for x in walk(u) if is_mag(x)}
                if u.op == "call" and u.args[0] == "builtins.int" and len(u.args[1]) == 1 and len(ls) == 1:
                    leaf = ls.pop()
                    self.micro(u.args[1][0], leaf)
                    save = dict(self.env)
                    self.env[T.cmp_("in", const("."), leaf)] = False
                    try:
                        return self.moment(t.args[0])
                    finally:
                        self.env = save
        raise Unknown(show(t, maxd=3))

    def fraction(self, leaf):
        """has the text a fraction: decided by the guards of this alternative"""
        r = decide(T.cmp_("in", const("."), leaf), self.env)
        if r is not None:
            return r
        cut = [k for k in self.env if any(p_split(x, leaf) for x in walk(k))]
        if any(p_split(k, leaf) and not self.env[k] for k in cut):
            return False  # nothing after (or no) point
        if cut:
            raise Unknown("the fraction of the seconds: " + show(cut[0], maxd=3))
        return None

    def micro(self, t, leaf):
        """the digits after the point, padded on the right to six"""
        if not any(p_split(x, leaf) for x in walk(t)):
            raise Unknown(show(t, maxd=3))
        if t.op == "meth":
            if t.args[1] in ("rjust", "zfill"):
                raise Lossy("the fraction of the seconds is padded on the wrong side")
            if t.args[1] == "ljust":
                return
        if t.op == "bin" and t.args[0] == "+":
            if pad(t.args[1]) and not pad(t.args[2]):
                raise Lossy("the fraction of the seconds is padded on the wrong side")
            if pad(t.args[2]) and not pad(t.args[1]):
                return
        if t.op == "str" and len(t.args) == 2:
            if pad(t.args[0]) and not pad(t.args[1]):
                raise Lossy("the fraction of the seconds is padded on the wrong side")
            if pad(t.args[1]) and not pad(t.args[0]):
                return
        if t.op == "sub" and t.args[1].op == "slice" and t.args[0].op == "str" and len(t.args[0].args) == 2:
            a, b = t.args[0].args
            if is_str(b) and set(b.args[0]) == {"0"} and not is_str(a):
                return
            if is_str(a) and set(a.args[0]) == {"0"}:
                raise Lossy("the fraction of the seconds is padded on the wrong side")
        raise Unknown(show(t, maxd=3))

    def clock(self, t):
        """seconds of an H:M:S text built of pieces"""
        parts = [t] if t.op != "str" else list(t.args)
        cols = [[]]
        for p in parts:
            if is_str(p):
                for i, s in enumerate(p.args[0].split(":")):
                    if i:
                        cols.append([])
                    if s:
                        cols[-1].append(const(s))
            else:
                cols[-1].append(p)
        if len(cols) != 3:
            raise Unknown(show(t, maxd=3))
        d = {(): 0.0}
        for c, k in zip(cols, (3600, 60, 1)):
            if not c:
                continue
            if len(c) != 1:
                raise Unknown(show(t, maxd=3))
            d = plus(d, scale(self.num(c[0]), k))
        return d


def isnum_(n):
    return n.op == "const" and isinstance(n.args[0], int) and not isinstance(n.args[0], bool)


def pad(t):
    return t.op == "bin" and t.args[0] == "*" and any(is_str(x) and x.args[0] == "0" for x in t.args[1:] if isinstance(x, Node))


def p_split(t, leaf):
    """part of a leaf split or partitioned at the point"""
    if t.op != "sub":
        return False
    b = t.args[0]
    return b.op == "meth" and b.args[1] in ("split", "partition", "rsplit", "rpartition") and b.args[2] and is_str(b.args[2][0]) and b.args[2][0].args[0] == "." and contains(b.args[0], lambda x: x is leaf)


def piece(t):
    """(leaf, i) for the i-th field of an H:M:S leaf"""
    b, k = t.args
    if b.op == "meth" and b.args[1] == "split" and is_mag(b.args[0]) and b.args[2] and is_str(b.args[2][0]) and b.args[2][0].args[0] == ":" and k.op == "const" and isinstance(k.args[0], int):
        return (b.args[0], k.args[0] % 3)
    return None


def zeros(env):
    """the fields that are assumed to be nought"""
    out = set()
    for c, p in env.items():
        if c.op == "cmp" and c.args[0] == "==" and p:
            try:
                r = Reading({}).num(T.bin_("-", c.args[1], c.args[2]) if c.args[1].op != "ite" else c.args[1])
            except (Unknown, Lossy):
                continue
            ks = [k for k, v in r.items() if v and k != ()]
            if len(ks) == 1 and not r.get((), 0):
                out.add(ks[0])
    return out


FIELDS = (3600.0, 60.0, 1.0)


def same(r, leaf, k, env, fields=False):
    """None when the linear form is k times the leaf, else what it is; a time may be given by its fields"""
    z = zeros(env)
    r = {x: v for x, v in r.items() if abs(v) > 1e-30 and x not in z}
    close = lambda a, b: abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    if set(r) == {leaf}:
        return None if close(r[leaf], k) else f"is {r[leaf] / k:g} times the source's value"
    if fields and all(isinstance(x, tuple) and x and x[0] is leaf for x in r) and r:
        want = {(leaf, i): FIELDS[i] * k for i in range(3) if (leaf, i) not in z}
        if set(want) == set(r) and all(close(r[x], want[x]) for x in want):
            return None
        return "counts " + " + ".join(f"{r.get(x, 0) / k:g} s per {('hour', 'minute', 'second')[x[1]]}" for x in sorted(set(want) | set(r), key=lambda q: q[1]))
    if not any(x is leaf or isinstance(x, tuple) and x and x[0] is leaf for x in r):
        others = [show(x[0] if isinstance(x, tuple) else x) for x in r if x != ()]
        return "is taken from " + ", ".join(others) if others else "does not depend on the source's value"
    return "mixes " + ", ".join(sorted("a constant" if x == () else show(x[0] if isinstance(x, tuple) else x) for x in r))
