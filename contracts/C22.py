"""SyntacticSugar, add_sugar, remove_sugar: dictionaries of any size with any keys and values"""
from contracts.common import *
from contracts.seqs import *

M = "wulfric._syntactic_sugar."


class Key(sym.Sym):
    """any hashable object, up to equality: a number; texts have the numbers of CODES"""

    def __init__(self, e):
        self.e = e

    def isinstance(self, t):
        raise Unsupported("kind of a key")

    def __eq__(self, o):
        if isinstance(o, str):
            return mkbool(self.e == CODES.setdefault(o, len(CODES)))
        return mkbool(self.e == o.e) if isinstance(o, Key) else False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        raise Unsupported("hash of a symbolic key")

    def __repr__(self):
        return "<key>"

    __str__ = __repr__

    def __format__(self, s):
        return "<key>"


class Value(sym.Sym):
    """any object; the same object has the same number"""

    def __init__(self, e):
        self.e = e

    def isinstance(self, t):
        raise Unsupported("kind of a value")

    def __eq__(self, o):
        raise Unsupported("comparison of values")

    __hash__ = None

    def __deepcopy__(self, memo):
        return Value(ctx().fresh("copy", "int"))

    def __repr__(self):
        return "<value>"


def dictionary(vc, name="d"):
    n = count(vc, f"n_{name}", 0)
    k, v = (z3.Function(f"{x}_{name}", z3.IntSort(), z3.IntSort()) for x in ("key", "value"))
    keys = {}

    def at(i):
        s = z3.simplify(i).sexpr()
        return keys.setdefault(s, (Key(k(i)), Value(v(i))))

    q = SymSeq(zint(n), lambda i: at(i)[0], name=name)
    q.distinct = True
    pairs = SymSeq(zint(n), lambda i: (q.at(i), at(i)[1]), name=name)
    base = seq.SymMap(pairs, lambda t: t)
    base.keys_seq = q
    d = seq.SymDict(base)
    d.keys = lambda: q
    d.n, d.q, d.pair, d.v = n, q, at, v
    return d


def same_value(a, b):
    return isinstance(a, Value) and isinstance(b, Value) and (a is b or ctx().engine.quiet(ctx(), a.e == b.e))


class World:
    def __init__(self, vc, L):
        self.vc = vc
        self.d = dictionary(vc)
        self.n = self.d.n
        self.gs = []
        self.value = Value(vc.int("v").e)
        self.other = self.some("x")
        self.add = L.get(M + "add_sugar")
        self.cls = L.get(M + "SyntacticSugar")

    def index(self, name):
        g = index(self.vc, name, self.n)
        self.gs.append(g)
        ghosts(self.vc, *self.gs)
        return g

    def some(self, name, key=None):
        """any key: it is missing, or it is there at some index"""
        vc, d = self.vc, self.d
        if vc.choose(2) == 0:
            k = d.q.at(zint(self.index(f"at_{name}")))
            if key is not None:
                vc.assume(k == key)
            return k if key is None else key
        key = Key(vc.int(name).e) if key is None else key
        d.q.axioms.append(lambda i, v: v != key)
        return key

    def lookup(self, d, k):
        d = seq.desym(d)
        return d.find(k) if isinstance(d, sym.Sym) else d.get(k, seq.NO)

    def given_unchanged(self):
        self.vc.check(not self.d.entries and not self.d.q.changed(), "the given dictionary is not modified")

    def agree(self, s, d, k, what):
        """s and d have the same value for the key, or both none"""
        a, b = self.lookup(s, k), self.lookup(d, k)
        self.vc.check((a is seq.NO) == (b is seq.NO) and (a is seq.NO or same_value(a, b)), what)
        return b


def sugar(vc, L, name=None):
    w = World(vc, L)
    w.key = w.some("k", name)
    s = w.add(w.d)
    w.given_unchanged()
    return w, s


@harness(M + "add_sugar", M + "remove_sugar", cases=["add", "remove"], covers=["kept"])
def keeps(vc, L, what):
    w = World(vc, L)
    g = w.index("g") if bool(w.n > 0) else None
    s = w.add(w.d)
    w.given_unchanged()
    if what == "add":
        vc.check(type(s) is w.cls and issubclass(w.cls, dict), "the result is a dictionary with sugar")
    else:
        t, s = s, L.get(M + "remove_sugar")(s)
        vc.check(type(s) in (dict, seq.GDict) and s is not t, "the result is a plain dictionary")
        w.agree(t, w.d, w.other, "the given dictionary is not modified")
        vc.prove(length(seq.desym(t).keys()) == w.n, "the given dictionary keeps its keys")
    vc.cover("kept")
    m = seq.desym(s)
    vc.prove(length(m.keys()) == w.n, "as many keys as given")
    if g is not None:
        vc.prove(el(m.keys(), g) == w.d.q.at(zint(g)), "every key, in the same order")
        vc.check(same_value(el(m.items(), g)[1], w.d.pair(zint(g))[1]), "every value is the given object")
    w.agree(s, w.d, w.other, "any key: the same value as in the given dictionary, or missing in both")


@harness(M + "SyntacticSugar", M + "add_sugar", covers=["present", "missing"])
def read(vc, L):
    w = World(vc, L)
    if vc.choose(2) == 0:
        key = w.other
        s = w.add(w.d)
        st, v = vc.call(w.cls.__getattr__, s, key)  # not an attribute of the class: __getattr__ is called
    else:
        key = w.some("positions", "positions")
        s = w.add(w.d)
        st, v = vc.call(lambda: s.positions)
        vc.check(hasattr(s, "positions") == (w.lookup(w.d, key) is not seq.NO), "hasattr")
    b = w.lookup(w.d, key)
    if b is seq.NO:
        vc.cover("missing")
        vc.check(st == "raise" and type(v) is AttributeError, "reading a missing key with the dot raises AttributeError", say(v))
        st, v = vc.call(lambda: s[key])
        vc.check(st == "raise" and isinstance(v, KeyError), "reading a missing key with the bracket raises KeyError")
    else:
        vc.cover("present")
        vc.check(st == "ok" and same_value(v, b), "reading with the dot gives the value", say(v))
        vc.check(same_value(s[key], b), "reading with the bracket gives the value")
    w.agree(s, w.d, key, "reading does not modify the dictionary")
    w.given_unchanged()


@harness(M + "SyntacticSugar", M + "add_sugar", cases=["dot", "bracket"], covers=["written"])
def write(vc, L, how):
    name = vc.choose(2) == 0
    w, s = sugar(vc, L, "positions" if name else None)
    key = w.key
    if how == "bracket":
        s[key] = w.value
    elif name:
        s.positions = w.value
    else:
        w.cls.__setattr__(s, key, w.value)
    vc.cover("written")
    vc.check(same_value(s[key], w.value), "the bracket reads what was written")
    vc.check(same_value(s.positions if name else w.cls.__getattr__(s, key), w.value), "the dot reads what was written")
    if not bool(seq._eq(w.other, key)):
        w.agree(s, w.d, w.other, "other keys keep their values")
    vc.check(not vars(s), "nothing is stored beside the dictionary")
    w.given_unchanged()


@harness(M + "SyntacticSugar", M + "add_sugar", cases=["dot", "bracket"], covers=["deleted", "missing"])
def delete(vc, L, how):
    name = vc.choose(2) == 0
    w, s = sugar(vc, L, "positions" if name else None)
    key = w.key
    had = w.lookup(w.d, key) is not seq.NO
    st, e = vc.call(lambda: s.__delitem__(key)) if how == "bracket" else vc.call(lambda: delattr(s, "positions")) if name else vc.call(w.cls.__delattr__, s, key)
    vc.check((st == "ok") == had, "a key can be deleted if and only if it is there", say(e))
    vc.cover("deleted" if had else "missing")
    vc.check(w.lookup(s, key) is seq.NO, "a deleted key is missing for the bracket")
    st, e = vc.call(lambda: s.positions) if name else vc.call(w.cls.__getattr__, s, key)
    vc.check(st == "raise" and type(e) is AttributeError, "a deleted key is missing for the dot")
    if not bool(seq._eq(w.other, key)):
        w.agree(s, w.d, w.other, "other keys keep their values")
    vc.check(not vars(s), "nothing is stored beside the dictionary")
    w.given_unchanged()


@harness(M + "SyntacticSugar", covers=["class"])
def names(vc, L):
    cls = L.get(M + "SyntacticSugar")
    more = [k for k in set(dir(cls)) - set(dir(dict)) if not (k.startswith("__") and k.endswith("__")) and k not in ("_real", "_keep", "_symbolic", "_vc_pairs", "_vc_sym", "view")]
    vc.check(not more, "the class has no other names than those of a dictionary (they would hide keys)", str(more))
    vc.check("__slots__" not in vars(cls) and "__getattribute__" not in vars(cls), "names that are not those of the class are looked up by __getattr__")
    vc.cover("class")


@harness(M + "add_sugar", M + "remove_sugar", cases=["add_sugar", "remove_sugar"], covers=["refused"])
def refused(vc, L, f):
    x = [None, 1, 2.5, "text", [], [(1, 2)], (), {1}, b"", object()][vc.choose(10)]
    st, e = vc.call(L.get(M + f), x)
    vc.check(st == "raise" and isinstance(e, ValueError), "input that is not a dictionary is refused with ValueError", say(e))
    vc.cover("refused")
