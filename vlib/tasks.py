"""The input shapes ("skeletons") each property is decided on. A skeleton fixes how many productions there are, how
long their outputs are, which symbol each production belongs to and how many tokens there are; every other symbol is
symbolic (?name: any symbol at all; ?name{A,b}: one of those listed). See symx/src/skel.rs for the notation."""
import itertools, json, os
from runner import Task

NTS = "ABCDEFGH"


# ---------------------------------------------------------------- generators
def rgs(n, kmax, kmin=1):
    """restricted growth strings: every way to share n productions among symbols, first use in order"""
    def go(p, k):
        if len(p) == n:
            if k >= kmin:
                yield tuple(p)
            return
        for x in range(min(k + 1, kmax)):
            yield from go(p + [x], max(k, x + 1))
    yield from go([], 0)


def lens(n, maxlen, lo, hi, minlen=1):
    for l in itertools.product(range(minlen, maxlen + 1), repeat=n):
        if lo <= sum(l) <= hi:
            yield l


def free(pattern, ls, names=NTS):
    """every output slot free"""
    k, out = 0, []
    for p, l in zip(pattern, ls):
        out.append("%s > %s" % (names[p], " ".join("?%d" % (k + j) for j in range(l))))
        k += l
    return " ; ".join(out)


def small(n, kmax, maxlen, tot, kmin=1):
    for ls in lens(n, maxlen, tot, tot):
        for pat in rgs(n, kmax, kmin):
            yield free(pat, ls)


def marked(n, tot, maxlen=3, starts=1, kmax=2):
    """end-marked grammars: `starts` productions of S ending in $, n of other symbols; every other slot free"""
    for ls in lens(starts + n, maxlen, tot, tot, 0):
        if any(l == 0 for l in ls[starts:]) or (n and not any(ls[:starts])) or (starts > 1 and not all(ls[:starts])):
            continue
        for pat in rgs(n, kmax):
            k, out = 0, []
            for i, l in enumerate(ls):
                w = ["?%d" % (k + j) for j in range(l)]
                k += l
                out.append("S > " + " ".join(w + ["$"]) if i < starts else "%s > %s" % (NTS[pat[i - starts]], " ".join(w)))
            yield " ; ".join(out)


def rev(g):
    """the productions of a grammar declared in reverse, the first input symbol staying first"""
    ps = [p.strip() for p in g.split(";")]
    return " ; ".join([ps[0]] + ps[:0:-1])


def chain(n, link, last, names="N"):
    """N0 -> link(N1) ; N1 -> link(N2) ... ; Nn -> last"""
    return ["%s%d > %s" % (names, i, link("%s%d" % (names, i + 1), i)) for i in range(n)] + \
           ["%s%d > %s" % (names, n, x) for x in last]


def n_free(tokens):
    return sum(int(w) for w in tokens.split() if w.isdigit())


class L:
    """a task list under construction"""

    def __init__(self, prop):
        self.prop, self.out = prop, []

    def add(self, group, gs, tokens="", flags="", seeds=None):
        if group.startswith("large") and "budget" not in flags:
            flags += LARGE
        if isinstance(gs, str):
            gs = [gs]
        for g in gs:
            if isinstance(g, list):
                g = " ; ".join(g)
            for t in ([tokens] if isinstance(tokens, str) else tokens):
                for s in (seeds or [1 + len(self.out) % 7]):
                    self.out.append(Task(self.prop, g, t, flags, s, group))
        return self

    def small(self, spec, tokens="", flags=""):
        """spec: list of (n productions, max symbols, max output length, total output length[, min symbols])"""
        for sp in spec:
            n, k, ml, tot = sp[:4]
            self.add("every symbol free: %d productions, %d output symbols, %s tokens" % (n, tot, tokens or "no"),
                     small(n, k, ml, tot, *(sp[4:5])), tokens, flags)
        return self


# ---------------------------------------------------------------- shapes drawn at random
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "shapes.json")) as _f:
    _DRAWN = json.load(_f)


def drawn(kind, th, quick):
    """(grammar, tokens) from tools/make_shapes.py: fixed, drawn once"""
    l = _DRAWN[kind]
    return l if th else l[:quick]


DRAWN = "drawn at random: 2-5 symbols, up to 9 productions"


# ---------------------------------------------------------------- grammars for the analyses
def analysis(th):
    """(group, grammar): chains, nullability, recursion and repetition, with free slots"""
    o = []

    def a(group, *gs):
        for g in gs:
            o.append((group, g if isinstance(g, str) else " ; ".join(g)))
    # nullable sequences: which symbols vanish is symbolic
    a("nullable sequence", "S > A B C ?1 ; A > a ; A > ?2 ; B > b ; B > ?3 ; C > ?4",
      "C > ?4 ; B > ?3 ; B > b ; A > ?2 ; A > a ; S > A B C ?1",
      "S > A B C D e ; A > ?1 ; B > ?2 ; C > ?3 ; D > ?4",
      "D > ?1 ; C > ?2 ; B > ?3 ; A > ?4 ; S > A B C D")
    a("follow across nullable symbols", "S > a A B C ?1 ; A > x ; B > ?2 ; C > ?3 ; C > c ; B > b",
      "S > A B C ; S > ?1 A ?2 ; A > x ; B > eps ; B > b ; C > ?3",
      "S > x A ?1 ; S > B A ?2 ; A > a B ?3 ; B > b ; B > eps")
    a("repeated symbols", "S > A A ?1 ; A > a ; A > ?2", "S > A A A A ?1 ; A > ?2 ; A > b", "S > A ?1 A ?2 A ; A > ?3",
      "S > A B A B ?1 ; A > ?2 ; B > ?3", "S > ?1 A A ?2 ; A > a A ; A > ?3", "S > a A A ; A > ?1 ?2 ?3 ; A > eps")
    a("recursion", "S > A ?1 ; A > B ?2 ; B > C ?3 ; C > ?4 ; C > c", "C > A ?4 ; B > C ?3 ; A > B ?2 ; A > ?1",
      "A > A ?1 ; A > B ?2 ; B > A ?3 ; B > ?4", "A > B A ?1 ; B > C B ?2 ; C > ?3 ; B > ?4",
      "A > A A ?1 ; A > ?2 ; A > ?3 ?4", "A > B ; B > C ; C > A ; C > ?1 ; A > ?2 ?3")
    a("follow of nullable ends", "S > A ?1 ; A > x B C D E ; B > b ; B > ?2 ; C > c ; C > ?3 ; D > ?4{d,eps,B,S} ; E > e ; E > eps",
      "E > eps ; E > e ; D > ?4{d,eps,B,S} ; C > ?3 ; C > c ; B > ?2 ; B > b ; A > x B C D E ; S > A ?1", "S > A B C D E f ; A > a ; B > b ; B > eps ; C > ?1 ; D > ?2 ; E > ?3")
    a("follow of ends", "S > A ?1 ; A > b B ; B > c C ; C > ?2 ?3 ; C > eps", "C > eps ; C > ?2 ?3 ; B > c C ; A > b B ; S > A ?1",
      "S > A ?1 ; A > x B C ; B > y ; C > D ; C > ?2 ; D > ?3 ; D > eps", "S > a A ; A > b B ; B > ?1 A ; B > ?2 S ; S > ?3")
    a("many productions of a symbol", "A > a ; A > b B ; A > ?1 ; A > c ; A > ?2 B ; A > ?3 ; B > eps ; B > d",
      "A > B a ; A > C b ; A > B C ; A > ?1 C ; B > ?2 ; C > ?3 ; B > eps")
    a("long outputs", "S > a b c ?1 A B C ?2 ; A > eps ; B > ?3 ; C > eps", "S > A B C A B C ?1 ?2 ; A > eps ; B > eps ; C > ?3 ; A > a",
      "S > ?1 A ?2 A ?3 A b ; A > eps ; A > a")
    a("duplicates and undefined symbols", "A > ?1 ; A > ?1 ; A > ?2 B ; A > ?2 B ; B > ?3", "A > X ?1 ; A > X ?1 Y ; X > ?2 ; X > ?3")
    n = 14 if not th else 30
    for k in (6, n):
        ch = chain(k, lambda x, i: x, ["?1", "?2"])
        a("long unit chain", ch, ch[::-1], ch[::2] + ch[1::2])
        ch = chain(k, lambda x, i: "E %s" % x, ["?1"]) + ["E > eps", "E > ?2"]
        a("long chain behind nullable symbols", ch, ch[::-1])
        ch = ["S > N0 ?3"] + chain(k, lambda x, i: "t%d %s" % (i, x), ["?1", "eps"])
        a("long chain of ends", ch, ch[::-1])
        ch = chain(k, lambda x, i: x, ["eps", "N0 ?1"])
        a("nullability that arrives late, round a cycle", ch, ch[::-1])
        ch = chain(k, lambda x, i: x, ["eps", "N0 M t", "?1"]) + chain(3, lambda x, i: x, ["N0", "u ?2"], "M")[:4]
        a("nullability that arrives late, round a cycle", [p.replace("N0 M t", "N0 M0 t") for p in ch], [p.replace("N0 M t", "N0 M0 t") for p in ch[::-1]])
        ch = chain(k, lambda x, i: "%s E" % x, ["?1", "eps"]) + ["E > ?2", "E > eps"]
        a("long chain of nullable ends", ch, ch[::-1])
        ch = chain(k, lambda x, i: "%s ?%d" % (x, i % 3) if i % 3 else "%s ?0{N0,N2,y,z}" % x, ["N0", "z"])
        a("long cycle", ch, ch[::-1])
    for k in (40, 70) if not th else (40, 70, 130):
        a("large: unit chain", chain(k, lambda x, i: x, ["?1"]), *([chain(k, lambda x, i: x, ["?1"])[::-1]] if k < 70 or th else []))
        a("large: chain of ends", ["S > N0 ?1"] + chain(k, lambda x, i: "t%d %s" % (i, x), ["u"]))
        a("large: output", ["S > " + " ".join("t%d" % i for i in range(k)) + " ?1"] + ["S > t%d" % i for i in range(k)])
        a("large: nullable output", ["S > " + " ".join(["E"] * k) + " a ?1", "E > eps", "E > e"])
        if k < 70 or th:
            a("large: choice", ["S > M%d a" % i for i in range(k)] + ["M%d > m%d" % (i, i) for i in range(k)] + ["M3 > ?1"])
            a("large: follow", ["S > A t%d" % i for i in range(k)] + ["A > b B", "B > ?1", "B > eps"])
    for k in (11, 20, 66) if not th else (11, 20, 34, 66, 130):
        l = "large: " if k > 60 else ""
        es = " ".join(["E"] * k)
        half = " ".join(["E"] * (k // 2))
        e = ["E > eps", "E > e"]
        a(l + "long nullable tail", ["S > X t", "X > B " + es, "B > b", "E > eps", "E > ?1"], ["S > X ?1", "X > x B %s C" % es, "B > b", "C > eps"] + e)
        a(l + "long nullable middle", ["S > B %s C" % es, "B > b", "C > ?1", "C > eps", "S > S t"] + e, ["S > a B %s ?1 %s" % (half, half), "B > b", "S > S t"] + e)
        a(l + "repeated behind nullables", ["S > B %s B %s B ?1" % (half, half), "B > b", "B > b B"] + e)
        a(l + "followed everywhere", ["S > " + " ".join("A t%d" % i for i in range(k)) + " A ?1", "A > a B", "B > eps"])
        if k < 60 or th:
            a(l + "different nullable symbols", ["S > X t", "X > B " + " ".join("M%d" % i for i in range(k)), "B > b"] +
              sum([["M%d > m%d" % (i, i), "M%d > %s" % (i, "?1{eps,u,M0,S}" if i == k // 2 else "eps")] for i in range(k)], []))
            a(l + "chain of nullable ends", ["S > N0 t", "S > N0 ?1"] + chain(k, lambda x, i: "x %s E" % x, ["y"]) + e)
            a(l + "two ways through", ["D%d > %s" % (i, w) for i in range(k) for w in ("D%d" % (i + 1), "d%d D%d" % (i, min(i + 2, k)))] + ["D%d > ?1" % k])
    for k in (5, 9) + ((17,) if th else ()):
        a("wide nullable sequence", ["S > %s ?1" % " ".join("M%d" % i for i in range(k))] +
          sum([["M%d > m%d" % (i, i), "M%d > %s" % (i, ["?2{M0,M3,S,eps,z}", "?3{M4,S,eps}", "eps"][i % 3])] for i in range(k)], []))
        a("wide choice", ["S > %s" % ("M%d" % i) for i in range(k)] + ["M%d > %s" % (i, ["?1", "eps", "m%d" % i, "?2{S,M1,M2,eps,z}", "S"][i % 5]) for i in range(k)])
        a("one long output", ["S > " + " ".join(["E"] * k + ["?1"] + ["E"] * k + ["?2"]), "E > eps", "E > ?3"])
        a("every terminal once", ["S > " + " ".join("t%d" % i for i in range(k)), "S > ?1 A", "A > t0 ?2", "A > ?3 t1"])
    return o


ANALYSIS_SMALL = {
    False: [(1, 1, 4, 1), (1, 1, 4, 2), (1, 1, 4, 3), (1, 1, 4, 4), (2, 2, 3, 2), (2, 2, 3, 3), (2, 2, 3, 4), (2, 2, 3, 5),
            (3, 3, 3, 3), (3, 3, 3, 4), (3, 3, 2, 5)],
    True: [(1, 1, 5, 1), (1, 1, 5, 2), (1, 1, 5, 3), (1, 1, 5, 4), (1, 1, 5, 5), (2, 2, 4, 2), (2, 2, 4, 3), (2, 2, 4, 4), (2, 2, 4, 5),
           (2, 2, 4, 6), (3, 3, 3, 3), (3, 3, 3, 4), (3, 3, 3, 5), (3, 3, 2, 6), (4, 4, 3, 4), (4, 4, 2, 5)],
}


def n_names(g):
    """free symbols of a grammar"""
    return len({w.split("{")[0] for w in g.replace(">", " ").split() if w.startswith("?")})


def hashed(t, th, flags, spec=None, tokens="", quick=60):
    """the hash function of symbols symbolic too: which symbols collide, so in which order collections are walked"""
    def f(n):
        return ",".join(x for x in (flags, "hash=%d" % n) if x)
    t_ = " and %s tokens" % tokens if tokens else ""
    for n, k, ml, tot, h in spec or HASHED_SMALL[th]:
        t.add("symbolic hash (%d), every symbol free: %d productions, %d output symbols%s" % (h, n, tot, t_), small(n, k, ml, tot), tokens, f(h))
    for g, s in analysis(False):
        c = n_names(s)
        if c < 3 and not g.startswith("large") and len(s) < (180 if not tokens else 70):
            t.add("symbolic hash (1): " + g, s, tokens, f(1))
            if c < 2 and len(s) < (60 if not th else 90):
                t.add("symbolic hash (2): " + g, s, tokens, f(2))
    n = 0
    for g, _ in drawn("analysis", th, 200):
        if n_names(g) < 3 and n < (quick if not th else 300):
            n += 1
            t.add("symbolic hash (1), " + DRAWN, g, tokens, f(1))


HASHED_SMALL = {  # productions, symbols, longest output, output symbols, hash markers
    False: [(1, 1, 3, 1, 2), (1, 1, 3, 2, 2), (1, 1, 3, 3, 1), (2, 2, 2, 2, 2), (2, 2, 3, 3, 1), (2, 2, 3, 4, 1), (3, 3, 2, 3, 1)],
    True: [(1, 1, 3, 1, 3), (1, 1, 3, 2, 3), (1, 1, 3, 3, 2), (2, 2, 2, 2, 3), (2, 2, 3, 3, 2), (2, 2, 3, 4, 1), (2, 2, 3, 5, 1), (3, 3, 2, 3, 2), (3, 3, 2, 4, 1)],
}


def analyses(prop, th, flags="", quick=200):
    t = L(prop)
    t.small(ANALYSIS_SMALL[th], flags=flags)
    for g, s in analysis(th):
        t.add(g, s, flags=flags)
    for g, _ in drawn("analysis", th, quick):
        t.add(DRAWN, g, flags=flags)
    hashed(t, th, flags)
    return t


EXPR = "S > E $ ; E > T R ; R > + T R ; R > eps ; T > F Q ; Q > x F Q ; Q > eps ; F > ( E ) ; F > i"


# ---------------------------------------------------------------- grammars and tokens for the parser
def parsing(th):
    """(group, grammar, tokens): none is left-recursive whatever its free slots (that is assumed of them)"""
    o = []

    def a(group, g, *toks):
        for t in toks:
            o.append((group, g if isinstance(g, str) else " ; ".join(g), t))
    x = 1 if th else 0
    # predictive
    a("LL(1) expressions", EXPR,
      str(4 + x), "i + 3", "( i 2 $" if not th else "( i 3 $", "i x i + i 2", "( ( i ) 2")
    a("LL(1) list", "S > L $ ; L > i M ; M > c i M ; M > ?1", "3", "i c i 2")
    # several candidates
    a("prefix alternatives", "S > A B ; A > a ; A > a ?1 ; A > a b a ; B > b ; B > ?2", str(3 + x))
    a("retry of two siblings", "S > A A c ; A > a ; A > a ?1 ; A > ?2 a", str(4 + x))
    a("retry of three siblings", "S > A B A ?1 ; A > a ; A > a a ; B > b ; B > a", str(4 + x), "a a 3", "a a a 3")
    a("retry of four siblings", "S > A A A A $ ; A > a ; A > a a ; A > a a a", "a a a a 3", "a a a a a 3", "a a a a a a a 2", "a*9 2")
    a("nested alternatives", "S > X c ; S > X d ; X > A A ; A > a ; A > a ?1 ; A > a a ?2", "3", "a a 2")
    a("nested retries", "S > X X $ ; X > A b ; X > A ?1 ; A > a ; A > a a", "a 4", "a a b 3")
    a("nullable alternatives", "S > A B $ ; A > eps ; A > a ; A > ?1 ; B > a ?2 ; B > eps", str(3 + x))
    a("nullable before nullable", "S > A B C a ; A > a ; A > eps ; B > a ; B > eps ; C > ?1 ; C > a a", "a 3", "a a 2")
    a("nothing but epsilon", "S > A ?1 A ; A > eps ; A > ?2", "2")
    a("alternatives that get differently far", "S > A c ; S > a b c ; A > a ?1", "3", "a b 2")
    a("alternatives that get differently far, three", "S > a b ; S > A d ; S > a b c d ; S > B ; A > a b e ; B > a ?1", "4", "a b c 1")
    a("alternatives below an alternative", "S > A e ; S > a b c d ; A > B f ; A > a b e ; B > a ; B > a b ?1", "4", "a b c 1")
    a("terminals around", "S > a A b A ?1 ; A > c ; A > c ?2 ; A > eps", "a 4")
    a("right recursion", "S > a S ; S > ?1 ; S > eps", "4", "a a 3", "a a a a 2")
    a("right recursion with retry", "S > A S ; S > A ; A > a ; A > a b ; A > ?1", "4", "a b 3")
    a("central recursion", "S > a S ?1 ; S > ?2", "4", "a a 3", "a a a b 3")
    a("mutual recursion", "S > a B ; S > ?1 ; B > b S ; B > ?2 c", "4", "a b a 2")
    a("dangling else", "S > i S T ; S > a ; T > e S ; T > eps", "5" if not th else "6", "i i a e 2")
    a("many alternatives", "S > ?1 c ; S > a b c ; S > a c ; S > b ; S > a b d ; S > a A ; A > b ; A > ?2", "3")
    a("undefined symbols", "S > A ?1 ; A > a U ; A > ?2", "3")
    a("deep failure", "S > A ?1 ; A > a B c ; B > b C ; C > c d e ; C > ?2", "3", "a b c 2", "a b c d e 2")
    a("failure beside parsed symbols", "S > A b A ?1 d ; A > x y ; A > x", "4", "x y b 2")
    a("long output", "S > a ?1 b A c ?2 d A e ; A > eps ; A > f", "a 4", "a b b f c 3", "a a b f c c d f 2")
    a("longer than the input", "S > a A ; A > b B ; B > ?1 C ; C > d", "1", "2", "3")
    a("initial symbol alone", "S > ?1", "1", "2")
    a("many alternatives of a sibling", ["S > A e", "S > A ?1 f"] + ["A > a" + " b" * i for i in range(7)], "a b*6 1", "a b*3 1 b 1")
    a("many alternatives of two siblings", ["S > A A ?1"] + ["A > a" + " a" * i for i in range(5)], "a*9 1", "a*10 1", "a*4 2")
    a("retry above a deep symbol", ["S > A b c", "A > N0", "A > a ?1"] + chain(6, lambda y, i: y, ["a"]), "a b b 1", "a 2")
    a("retry within a deep symbol", ["S > A b c", "S > A d"] + chain(6, lambda y, i: y, ["a", "a ?1"], "N") + ["A > N0"], "a b b 1", "a 2")
    a("retry of deep siblings", ["S > X X d"] + ["X > N0", "X > a b"] + chain(4, lambda y, i: y + (" E" if i % 2 else ""), ["a", "a ?1"]) + ["E > eps"], "a b a b 1", "a a b 1")
    # large inputs with a few symbolic tokens
    n = 40 if not th else 120
    a("long flat input", ["S > " + " ".join(["a"] * n + ["?1"])], "a*%d 2" % (n - 1), "a*%d 1 a*%d 1" % (n // 2, n - n // 2 - 1))
    a("long list", "S > a S ; S > ?1", "a*%d 2" % n, "a*%d 1 a*3 1" % (n // 2))
    a("deep nesting", "S > ( S ) ; S > x", "(*%d 1 )*%d 1" % (n // 2, n // 2 - 1), "(*%d x )*%d 1" % (n // 2, n // 2 - 1))
    a("long nullable chain", chain(n // 4, lambda y, i: "%s E" % y, ["?1", "a"]) + ["E > eps", "E > ?2"], "2")
    a("long unit chain", chain(n // 2, lambda y, i: y, ["?1 ?2"]), "2", "1")
    a("long tail retry", ["S > " + " ".join(["A"] * 6 + ["$"]), "A > a", "A > a b"], "a b a a b a 4", "a b a b a b a 3", "a*6 2")
    a("repeats across a list", "S > L $ ; L > A L ; L > A ; A > a ; A > a c", "a c a 3", "a a c 3")
    return o


def large(th):
    """(group, grammar, tokens): more than 256 tokens, more than 64 symbols, more than 64 alternatives"""
    o = []

    def a(group, g, *toks):
        for t in toks:
            o.append(("large: " + group, g if isinstance(g, str) else " ; ".join(g), t))
    n, w = (270, 70) if not th else (1100, 140)
    a("list", "S > a S ; S > ?1", "a*%d 2" % n, "a*%d 1 a*9 1" % n)
    a("list with alternatives", "S > L $ ; L > A L ; L > A ; A > a ; A > a c", "a*%d 2" % n, "a*%d c a*%d 2" % (n // 2, n // 2))
    a("flat", ["S > " + " ".join(["a"] * n) + " B ?1", "B > b", "B > b c"], "a*%d 3" % n)
    a("two beginnings", "S > L b ; S > L ?1 ; L > a L ; L > d", "a*%d d 1" % n, "a*%d 2" % n)
    a("nesting", "S > ( S ) ; S > ( ) ; S > x ?1", "(*%d 1 )*%d 1" % (n // 2, n // 2 - 1), "(*%d x 1 )*%d" % (n // 2, n // 2))
    a("far retry", ["S > A " + " ".join(["B"] * w) + " c ?1", "A > a", "A > a d", "B > d"], "a d*%d c 1" % (w + 1), "a d*%d 2" % w)
    a("many siblings that may be retried", ["S > " + " ".join(["A"] * w) + " ?1", "A > a", "A > a b"], "a*%d b a*%d 1" % (w // 2, w - w // 2), "a*%d 2" % (w - 1))
    a("many alternatives of a sibling", ["S > A e"] + ["A > a" + " b" * i for i in range(w // 2)], "a b*%d 1" % (w // 2 - 1), "a b*%d 1 b 1" % (w // 4))
    a("retry above a deep symbol", ["S > A b ?1{c,N3,eps}", "A > N0", "A > a b"] + chain(w, lambda y, i: y, ["a"]), "a b b 1")
    a("retry within a deep symbol", ["S > N0 b ?1{c,N3,eps}"] + chain(w, lambda y, i: y, ["a", "a b"]), "a b b 1")
    a("wide choice", ["S > t%d x" % i for i in range(w)] + ["S > ?1{t1,u,t%d} y" % (w - 1)], "1 x", "t%d 1" % (w - 1))
    a("wide conflict", ["S > a t%d" % i for i in range(w)] + ["S > A", "A > a ?1{u,t0,t%d}" % (w - 1)], "a 1")
    a("wide conflict below", ["S > x A $"] + ["A > a t%d" % i for i in range(w)], "x a 1 $")
    a("many symbols", ["S > " + " ".join("M%d" % i for i in range(w)) + " ?1{c,m4,M2,eps}"] + sum([["M%d > m%d" % (i, i), "M%d > eps" % i] for i in range(w)], []),
      "m%d 1" % (w - 5), "1")
    a("deep chain", chain(n // 4, lambda y, i: "t%d %s" % (i, y), ["?1{u,t0,t3,N2}", "t0"]), " ".join("t%d" % i for i in range(n // 4)) + " 1",
      " ".join("t%d" % i for i in range(n // 4 - 3)) + " 1 t%d t%d" % (n // 4 - 2, n // 4 - 1))
    return o


def large_predictive(th):
    o = []

    def a(group, g, *toks):
        for t in toks:
            o.append(("large: " + group, g if isinstance(g, str) else " ; ".join(g), t))
    n, w = (270, 70) if not th else (1100, 140)
    a("list", "S > L $ ; L > a L ; L > ?1", "a*%d 2" % n, "a*%d 1 a*9 1" % n)
    a("flat", ["S > " + " ".join(["a"] * n) + " B $", "B > b", "B > ?1"], "a*%d 2" % n, "a*%d 1 $" % n)
    a("nesting", "S > L $ ; L > ( L ) ; L > x", "(*%d 1 )*%d 1 $" % (n // 2, n // 2 - 1), "(*%d x )*%d 2" % (n // 2, n // 2 - 1))
    a("expressions", EXPR, "i " + "+ i " * (n // 2) + "2", "( i ) x " * (n // 8) + "i 1")
    a("wide choice", ["S > A $"] + ["A > t%d x" % i for i in range(w)] + ["A > ?1{u,v} y"], "1 x $", "t%d 1" % (w - 1))
    a("many nullable symbols", ["S > " + " ".join("M%d" % i for i in range(w // 2)) + " $"] + sum([["M%d > m%d" % (i, i), "M%d > eps" % i] for i in range(w // 2)], []),
      "m%d 1" % (w // 2 - 5), "m3 m%d 1" % (w // 2 - 2))
    a("deep chain", ["S > N0 $"] + chain(w, lambda y, i: "t%d %s" % (i, y), ["?1{v,t0,S,eps}", "u"]), " ".join("t%d" % i for i in range(w)) + " 1 $",
      " ".join("t%d" % i for i in range(w - 1)) + " 1")
    return o


PARSE_SMALL = {
    False: [((1, 1, 4, 1), "1 2"), ((1, 1, 4, 2), "1 2"), ((1, 1, 4, 3), "1 3"), ((1, 1, 4, 4), "3"), ((2, 2, 3, 2), "1 2"), ((2, 2, 3, 3), "1 2 3"),
            ((2, 2, 3, 4), "1 2 3 4"), ((2, 2, 3, 5), "3 4"), ((2, 2, 3, 6), "3"), ((3, 3, 3, 3), "1 2"), ((3, 3, 3, 4), "1 2 3"), ((3, 3, 3, 5), "2 3"),
            ((4, 4, 2, 4), "2")],
    True: [((1, 1, 5, 1), "1 2"), ((1, 1, 5, 2), "1 2"), ((1, 1, 5, 3), "1 3"), ((1, 1, 5, 4), "2 4"), ((1, 1, 5, 5), "5"), ((2, 2, 3, 2), "1 2"),
           ((2, 2, 3, 3), "1 2 3"), ((2, 2, 4, 4), "1 2 3 4"), ((2, 2, 3, 5), "2 3 4"), ((2, 2, 3, 6), "4"), ((3, 3, 3, 3), "1 2"),
           ((3, 3, 3, 4), "1 2 3"), ((3, 3, 3, 5), "2 3"), ((4, 4, 3, 4), "2")],
}


def parses(prop, th, flags="nolr", spec=None, quick=700):
    t = L(prop)
    for sp, toks in (spec or PARSE_SMALL)[th]:
        for k in toks.split():
            t.small([sp], k, flags)
    for g, s, k in parsing(th):
        t.add(g, s, k, flags)
    for g, k in drawn("parse", th, quick):
        t.add(DRAWN, g, k, flags)
    for g, s, k in parsing(th):
        after(t, g, s, k, flags, th)
    for g, k in drawn("parse", th, quick // 4):
        after(t, DRAWN, g, k, flags, th)
    for g, s, k in large(th):
        t.add(g, s, k, flags + (",ground" if prop == "C08" else ""))
    return t


def after(t, group, g, k, flags, th):
    """the same parser has parsed another input before; with few free symbols only"""
    f = n_free(k)
    c = n_names(g)
    n = 2 if f + c < 3 else 1 if f + c < 5 else 0
    if n and len(g) < 160 and len(k) < 40:
        t.add(group + ", after another input", g, k, "%s,before=%d" % (flags, n + (1 if th else 0)))


LARGE = ",budget=200000000"


def tasks(prop, tier):
    l = globals()["t_" + prop](tier == "thorough").out
    # the long ones first, so that none is left over at the end
    return sorted(l, key=lambda t: not t.group.startswith("large"))


# ---------------------------------------------------------------- LL(1), end-marked
def predictive(th):
    """(group, grammar, tokens); LL(1) and end-marked is assumed of the free slots"""
    o = []

    def a(group, g, *toks):
        for t in toks:
            o.append((group, g if isinstance(g, str) else " ; ".join(g), t))
    x = 1 if th else 0
    a("expressions", EXPR, str(4 + x), "i + 3", "( i 2 $" if not th else "( i 3 $", "i x i + i 2", "( ( i ) 2", "( i ) x ( 3")
    a("expressions, parts free", EXPR.replace("R > eps", "R > ?1").replace("F > i", "F > ?2"), "i 3", "( i 2")
    a("expressions, another order", rev(EXPR), "4", "( i ) + 2")
    a("list", "S > L $ ; L > i M ; M > c i M ; M > ?1", "3", "i c i 2")
    a("nullable sequence", "S > A B C $ ; A > a ; A > ?1 ; B > b ; B > ?2 ; C > c ; C > ?3", str(3 + x), "a 2", "b c 2")
    a("nullable sequence, declared late", "S > A B C $ ; C > ?3 ; C > c ; B > ?2 ; B > b ; A > ?1 ; A > a", "3")
    a("nullable rest after a non-nullable symbol", "S > Q $ ; Q > P y ; Q > z B d ; P > x A ; A > B ; A > ?1 ; B > b ; B > ?2", str(3 + x), "x 3")
    a("nullable ends", "S > a A b $ ; A > c B ; A > ?1 ; B > d ; B > ?2", "4", "a c 2")
    a("three nullable ends", "S > A $ ; A > x B C D ; B > b ; B > eps ; C > c ; C > ?1 ; D > d ; D > ?2", "3", "x c 2")
    a("nullable symbols between", "S > A B C D x $ ; A > a ; A > eps ; B > b ; B > ?1 ; C > c ; C > ?2 ; D > d ; D > eps", "3", "b 2")
    a("nested nullables", "S > A $ ; A > B C ; B > D ?1 ; C > c C ; C > eps ; D > d ; D > ?2", "3", "d c 2")
    a("follow through two levels", "S > A x $ ; S > b B $ ; A > a B ; B > C ; C > c ; C > ?1", "3", "a 3", "b 2")
    a("repeated nullable symbol", "S > A b A c A $ ; A > a ; A > ?1", "4", "b c 2", "a b a c 2")
    a("right recursion", "S > L $ ; L > a L ; L > ?1 ; L > b ?2", "4", "a a a 2")
    a("central recursion", "S > L $ ; L > ( L ) ; L > ?1", "4", "( ( 3", "( ( a 3")
    a("mutual recursion", "S > X $ ; X > a Y ; X > ?1 ; Y > b X ; Y > c ?2", "4", "a b a 2")
    a("several start productions", "S > a A $ ; S > b A b $ ; S > A $ ; A > c ; A > ?1", "3", "b 3")
    a("unit chains", ["S > N0 $"] + chain(6, lambda y, i: y, ["a", "?1"]), "2")
    a("chain with choices", "S > A $ ; A > a ; A > B ; B > b ; B > C ; C > c ; C > ?1 d", "3")
    n = 30 if not th else 90
    a("long list", "S > L $ ; L > a L ; L > ?1", "a*%d 2" % n, "a*%d 1 a*2 $" % n)
    a("deep nesting", "S > L $ ; L > ( L ) ; L > x", "(*%d 1 )*%d 1 $" % (n // 2, n // 2 - 1), "(*%d x )*%d 2" % (n // 2, n // 2 - 1))
    a("long production", ["S > " + " ".join(["a"] * (n // 2) + ["A"] + ["b"] * (n // 2) + ["$"]), "A > ?1", "A > c"], "a*%d 2 b*%d $" % (n // 2, n // 2 - 1),
      "a*%d 1 b*%d 1 $" % (n // 2, n // 2 - 1))
    a("many nullable symbols", ["S > " + " ".join("M%d" % i for i in range(8)) + " $"] + sum([["M%d > m%d" % (i, i), "M%d > eps" % i] for i in range(8)], []),
      "2", "m1 1 m6 1", "m0 m3 2")
    a("many alternatives", ["S > A $"] + ["A > t%d B" % i for i in range(9)] + ["B > u", "B > ?1"], "3")
    return o


def predictives(prop, th, flags, quick=700):
    t = L(prop)
    spec = [(0, 1, 1, 1), (0, 2, 2, 1), (0, 3, 3, 1), (1, 1, 3, 1), (1, 2, 3, 1), (1, 3, 3, 1), (1, 4, 4, 1), (2, 2, 3, 1), (2, 3, 3, 1), (2, 4, 4, 1),
            (1, 3, 2, 2), (3, 4, 3, 1), (2, 3, 2, 2)]
    if th:
        spec += [(0, 4, 5, 1), (1, 5, 5, 1), (2, 5, 4, 1), (2, 4, 3, 2), (3, 5, 4, 1), (3, 6, 4, 1), (2, 5, 5, 1)]
    for n, tot, toks, starts in spec:
        for k in range(1, toks + 1):
            t.add("every symbol free: %d + %d productions, %d output symbols, %d tokens" % (starts, n, tot, k), marked(n, tot, 3, starts), str(k), flags)
    for g, s, k in predictive(th):
        t.add(g, s, k, flags)
    for g, k in drawn("ll1", th, quick):
        t.add(DRAWN, g, k, flags)
    for g, s, k in predictive(th):
        after(t, g, s, k, flags, th)
    for g, k in drawn("ll1", th, quick // 4):
        after(t, DRAWN, g, k, flags, th)
    for g, s, k in large_predictive(th):
        t.add(g, s, k, flags + ",ground")
    return t


# ---------------------------------------------------------------- error solvers
def solving(th):
    """(group, grammar, tokens) on which inputs fail in many places"""
    o = []

    def a(group, g, *toks):
        for t in toks:
            o.append((group, g if isinstance(g, str) else " ; ".join(g), t))
    a("single path", "S > a A d ; A > b B c ; B > ?1", "3", "a 2", "a b 2")
    a("single path, two symbols", "S > A B ; A > a b ; B > c ?1", "3", "a c 1", "a b 2")
    a("fix, then another symbol", "S > A B C ; A > a b ; B > c ; C > ?1", "2", "a c 1")
    a("fix, then failure", "S > A b c ; A > a ?1", "3", "a 2")
    a("parsed, then fix, then parsed", "S > A B A c ; A > a ; B > b d", "4", "a b 2")
    a("nested fixes", "S > X c ; X > A B ; A > a b ; B > ?1 d", "3", "a 2")
    a("two alternatives above", "S > A c ; S > A d ; A > a b", "3", "a b 1")
    a("two alternatives below", "S > x A ; A > a b ; A > a ?1", "3", "x a 1")
    a("alternatives that get differently far", "S > A ; S > a b c ; A > a ?1", "3", "a b 1")
    a("three alternatives, differently far", "S > X e ; X > a ; X > a b ; X > a b c ; X > A d ; A > a ?1", "3", "a b 2")
    a("fixes below and above", "S > X Y ; X > A B ; A > a b ; B > b ; Y > c d ; Y > c ?1", "4", "a c 2")
    a("no production fits", "S > a B c ; B > b ; B > ?1 d", "a 2", "2")
    a("alternatives beside", "S > A B ; A > a ; A > a c ; B > b ?1", "3", "a c 1")
    a("retry of a parsed symbol", "S > A b ; A > a ; A > a c ?1", "3", "a c 1")
    a("retry of a symbol with several", "S > A B b ; A > a ; A > a c ; A > a ?1 ; B > c ; B > d", "3")
    a("right recursion", "S > a S ; S > ?1 b", "3", "a a 1")
    a("nullable symbols", "S > A B c ; A > a ; A > eps ; B > ?1 ; B > b d", "2", "a b 1")
    a("epsilon in a fixed production", "S > A E B ; A > a ; E > eps ; B > b ?1", "2", "a b 1")
    a("input ends", "S > A B C ; A > a ; B > b B ; C > ?1", "1", "a b")
    a("wide", "S > a A a A a A ; A > b ?1", "a b 1 1 1" if th else "a b 1")
    return o


def many_fixes(th):
    """(group, grammar, tokens, answers, resume positions): few free symbols, many answers"""
    o = []

    def a(g, toks, *scripts):
        for t in toks if isinstance(toks, list) else [toks]:
            for k, r in scripts:
                o.append(("many fixes: %d answers, %d resume positions" % (k, r), g, t, k, r))
    a("S > A B C D E ; A > a b ; B > b c ; C > c d ; D > d ; E > e ?1", ["a c 1", "x c x d 1", "1"], (6, 1), (3, 5))
    a("S > A A A A A A ; A > a b ; A > c", ["a a c 1", "c a c a c 1", "a b a 1"], (7, 1), (3, 5))
    a("S > a S ; S > b c", ["a a a 1", "a a b 1", "b 1"], (6, 2), (3, 5))
    a("S > a S b ; S > c d", ["a a a c", "a a 1", "a a c d 1"], (6, 2), (3, 5))
    a("S > X Y ; X > A B ; Y > A C ; A > a b ; B > b ; C > c d ; C > c e", ["a c 1", "a a c c", "a b b 1"], (6, 1), (3, 5))
    a("S > A B c ; A > a ; A > a b ; B > C D ; C > x y ; D > z ?1", ["a b x 1", "a x 1", "a b 1"], (5, 2), (3, 5))
    a("S > A B A B ; A > a ; A > eps ; B > b c", ["a b a b", "b 1 b", "1"], (5, 2), (3, 5))
    a("S > P ; P > Q ; Q > R ; R > T x ; T > a b ; T > a c", ["a 1", "a b 1", "1"], (5, 3), (3, 5))
    a("S > A B ; A > U V ; B > V U ; U > u w ; V > v w", ["u v v u", "u w v 1", "x v 1 u"], (6, 1), (3, 5))
    for n in (20, 70):
        a("S > %s c ; A > a b ; A > d" % " ".join(["A"] * n), ["a*%d 1" % (n + 3), "a*%d c a 1" % n], (n + 2, 1))
        a("S > a S ; S > b c", ["a*%d 1" % n], (n, 1))
        a("S > %s" % " ".join(["A"] * n) + " ; A > B c ; B > a b", ["a*%d 1" % (n // 2)], (8, 1))
    if th:
        a("S > A B C D E F ; A > a b ; B > b c ; C > c d ; D > d ; E > e f ; F > g ?1", ["a c 1", "x c x d 1", "a c 2"], (9, 1), (4, 5))
        a("S > a S ; S > b c", ["a*6 1", "a*5 b 1"], (8, 2), (4, 5))
    return o


def solvers(prop, th, free_flags, flags, quick=500):
    t = L(prop)
    spec = [((1, 1, 3, 1), "1 2"), ((1, 1, 3, 2), "1 2"), ((2, 2, 3, 2), "1 2"), ((2, 2, 3, 3), "1 2"), ((2, 2, 3, 4), "2"), ((3, 3, 3, 3), "1 2"), ((3, 3, 2, 4), "2")]
    if th:
        spec += [((1, 1, 4, 3), "1 2 3"), ((2, 2, 4, 4), "1 3"), ((2, 2, 3, 5), "2 3"), ((3, 3, 3, 4), "1 2 3"), ((3, 3, 3, 5), "2"), ((4, 4, 2, 4), "2")]
    for sp, toks in spec:
        for k in toks.split():
            t.small([sp], k, free_flags)
    for g, s, k in solving(th):
        t.add(g, s, k, flags)
    for g, s, k in parsing(th):
        if g not in ("long flat input", "deep nesting", "long unit chain", "long nullable chain"):
            t.add(g, s, k, free_flags)
    for g, k in drawn("parse", th, quick):
        t.add(DRAWN, g, k, free_flags)
    for g, s, k in solving(th) + parsing(th):
        after(t, g, s, k, free_flags, th)
    for g, k in drawn("parse", th, quick // 3):
        after(t, DRAWN, g, k, free_flags, th)
    for g, s, k in large(th):
        if n_free(k) < 3:
            t.add(g, s, k, free_flags)
    if prop in ("C09", "C13", "C14"):
        for g, s, k, n, r in many_fixes(th):
            t.add(g, s, k, "nolr,solver=%d,resume=%d" % (n, r))
    return t


# ---------------------------------------------------------------- the properties
def t_C01(th):
    t = L("C01")
    for n in (0, 1, 2, 3, 4) if not th else (0, 1, 2, 3, 4, 5):
        for ls in itertools.product(range(0, 4 if n < 4 else 3), repeat=n):
            if sum(ls) + n > (7 if not th else 8):
                continue
            # the inputs are free too: whether two productions share their symbol is symbolic
            k, w = 0, []
            for i, l in enumerate(ls):
                w.append("?i%d > %s" % (i, " ".join("?%d" % (k + j) for j in range(l))))
                k += l
            t.add("every symbol free: %d productions" % n, " ; ".join(w), "", "any,freeinit")
            if 1 < n < 4 and sum(ls) + n < (6 if not th else 7):
                t.add("symbolic hash (1), every symbol free: %d productions" % n, " ; ".join(w), "", "any,freeinit,hash=1")
    for n in (4, 6) if not th else (4, 6, 9):
        for pos in range(n):
            for h in (1, 2) if n < 6 or th else (1,):
                t.add("symbolic hash (%d), many productions, one free" % h, " ; ".join("N%d > %s" % (i % 4, "?1 ?2" if i == pos else "a b" if i % 3 else "eps") for i in range(n)), "", "any,hash=%d" % h)
                t.add("symbolic hash (%d), many productions, one empty" % h, " ; ".join("N%d > %s" % (i % 3, "" if i == pos else "?%d" % i if i < 3 else "a b") for i in range(n)), "", "any,hash=%d" % h)
    for n in (34, 70, 135):
        for pos in (0, 1, n // 2, n - 2, n - 1):
            t.add("large: one output, one slot free", "A > " + " ".join("?1" if i == pos else "a" if i % 2 else "A" for i in range(n)), "", "any")
            t.add("large: many productions, one free", " ; ".join("N%d > %s" % (i % 70, "?1 ?2" if i == pos else "a b" if i % 3 else "eps") for i in range(n)), "", "any")
            t.add("large: many productions of a symbol, one free", " ; ".join("N > %s" % ("?1 ?2" if i == pos else "a b" if i % 3 else "eps") for i in range(n)), "", "any")
    for n in (6, 9) if not th else (5, 6, 7, 8, 9, 10, 20):
        t.add("one long output", "A > " + " ".join("?%d" % i for i in range(min(n, 8 if th else 7))), "", "any")
        for pos in range(n):
            t.add("many productions, one free", " ; ".join("N%d > %s" % (i % 4, "?1 ?2" if i == pos else "a b" if i % 3 else "eps") for i in range(n)), "", "any")
            t.add("many productions, one with a free input", " ; ".join("%s > %s" % ("?0" if i == pos else "N%d" % i, "?1" if i == pos else "a b") for i in range(n)), "", "any")
            t.add("many productions, one empty", " ; ".join("N%d > %s" % (i % 3, "" if i == pos else "?%d" % i) for i in range(n)), "", "any")
            t.add("long outputs, two slots free", "A > " + " ".join("?1" if i == pos else "?2" if i == (pos * 2 + 1) % n else "a" for i in range(n)), "", "any")
    return t


def t_C02(th):
    t = L("C02")
    fl = "probe,freeinit"
    for n, tots in ((0, (0,)), (1, (1, 2, 3, 4)), (2, (2, 3, 4)), (3, (3,) if not th else (3, 4))):
        for tot in tots:
            for ls in lens(n, 4, tot, tot):
                k, w = 0, []
                for i, l in enumerate(ls):
                    w.append("?i%d > %s" % (i, " ".join("?%d" % (k + j) for j in range(l))))
                    k += l
                t.add("every symbol free, inputs too: %d productions, %d output symbols" % (n, tot), " ; ".join(w), "", fl)
    t.small(ANALYSIS_SMALL[th], flags="probe")
    for g, s in analysis(th):
        t.add(g, s, flags="probe")
    for g, _ in drawn("analysis", th, 200):
        t.add(DRAWN, g, flags="probe")
    for g, s, k in parsing(False):
        if k.isdigit():
            t.add(g, s, "", "probe")
    hashed(t, th, "probe")
    return t


def t_C03(th): return analyses("C03", th, "probe")
def t_C04(th): return analyses("C04", th, "probe")
def t_C05(th): return analyses("C05", th, "probe")
def t_C06(th): return parses("C06", th)
def t_C07(th): return predictives("C07", th, "em,nolr,ll1")
def t_C08(th): return parses("C08", th)


def t_C09(th):
    t = solvers("C09", th, "nolr,solver=1,resume=3", "nolr,solver=2,resume=5")
    for sp, toks in (((1, 1, 2, 1), "1 2"), ((1, 1, 2, 2), "2"), ((2, 2, 2, 2), "1"), ((2, 2, 2, 3), "2")):
        for k in toks.split():
            t.small([sp], k, "nolr,freeinit,solver=1,resume=2")
    t.add("no tokens at all", ["S > a", "S > ?1 ?2", "S > A ; A > eps", "S > eps", "S > eps ; S > ?1"], "", "nolr")
    t.add("no productions", "", ["1", "2"], "nolr,freeinit,solver=1,resume=1")
    n = 300 if not th else 1500
    t.add("very long input", "S > a S ; S > ?1", ["a*%d 1" % n, "a*%d" % n], "nolr,budget=60000000")
    t.add("very deep input", "S > ( S ) ; S > x", ["(*%d 1 )*%d" % (n // 2, n // 2), "(*%d" % n], "nolr,budget=60000000")
    t.add("very wide production", ["S > " + " ".join(["a"] * n), "S > " + " ".join(["E"] * 60) + " ?1 ; E > eps"], ["a*%d 1" % (n - 1), "a*%d 1" % (n + 3)],
          "nolr,budget=60000000")
    return t


def t_C10(th): return parses("C10", th)
def t_C11(th): return predictives("C11", th, "em,nolr,ll1,reach,prod")
def t_C12(th): return solvers("C12", th, "nolr", "nolr")
def t_C13(th): return solvers("C13", th, "nolr,solver=1,resume=2", "nolr,solver=2,resume=3" if not th else "nolr,solver=3,resume=4")
def t_C14(th): return solvers("C14", th, "nolr,solver=1,resume=2", "nolr,solver=2,resume=5" if not th else "nolr,solver=3,resume=5")


def t_C15_(th):
    t = L("C15")
    for n, tot in ((2, 2), (2, 3), (2, 4), (3, 3), (3, 4)) + (((3, 5), (4, 4), (4, 5)) if th else ()):
        t.add("analyses, every symbol free: %d productions, %d output symbols" % (n, tot), small(n, 3, 3, tot, 2), "", "")
        if tot < 5:
            t.add("parses, every symbol free: %d productions, %d output symbols" % (n, tot), small(n, 3, 2, tot, 2), "2", "nolr")
    for sp, k, b in (((2, 2, 2, 2), "2", 2), ((2, 2, 2, 3), "2", 2), ((2, 2, 2, 3), "1", 3), ((3, 2, 2, 3), "2", 2)):
        t.small([sp], k, "nolr,before=%d" % b)
    for g, s in analysis(th):
        t.add(g, s, "", "")
    for g, _ in drawn("analysis", th, 150):
        t.add(DRAWN, g)
    for g, s, k in parsing(th) + solving(th):
        f = n_free(k)
        if f < 4 or th:
            t.add(g, s, k, "nolr")
        if f < 3 and "long" not in g and "deep" not in g:
            t.add(g + ", after another input", s, k, "nolr,before=%d" % (2 if s.count("?") < 2 and f < 2 or th else 1))
        if f < 2 and s.count("?") < 2 and "long" not in g and "deep" not in g:
            t.add(g + ", many times", s, k, "nolr,often=%d,budget=60000000" % (270 if not th else 1050))
    for n, (g, k) in enumerate(drawn("parse", th, 400)):
        f = n_free(k)
        if f < 4:
            t.add(DRAWN + ", after another input", g, k, "nolr,before=%d" % (3 if f < 2 and n % 2 else 2 if f < 3 and g.count("?") < 2 else 1))
    return t


def t_C15(th):
    t = t_C15_(th)
    hashed(t, th, "")
    hashed(t, th, "nolr", [(2, 2, 2, 2, 1), (2, 2, 2, 3, 1)] + ([(3, 3, 2, 3, 1)] if th else []), "2", 20)
    return t


def t_C16(th):
    t = L("C16")
    t.add("two tokens", "", "2", "freeinit", [1, 2, 3])
    t.add("two tokens", "", ["a ?1", "a a", "a b", "?1 ?1"], "freeinit")
    for sp, toks in (((1, 1, 3, 2), "2"), ((2, 2, 3, 2), "2"), ((2, 2, 3, 3), "2 3"), ((2, 2, 3, 4), "3"), ((3, 3, 2, 3), "2"), ((3, 3, 3, 4), "3")) + \
            ((((3, 3, 3, 5), "3"), ((2, 2, 3, 5), "4"), ((4, 4, 2, 4), "2")) if th else ()):
        for k in toks.split():
            t.small([sp], k, "nolr")
    for g, s, k in parsing(th):
        if k != "1":
            t.add(g, s, k, "nolr")
    for g, k in drawn("parse", th, 700):
        if len(k.split()) > 1:
            t.add(DRAWN, g, k, "nolr")
    return t


def t_C17(th):
    t = L("C17")
    for n, tot in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3)) + (((2, 4), (3, 4)) if th else ()):
        for ls in lens(n, 3, tot, tot):
            k, w = 0, []
            for i, l in enumerate(ls):
                w.append("?i%d > %s" % (i, " ".join("?%d" % (k + j) for j in range(l))))
                k += l
            t.add("every symbol free, inputs too: %d productions, %d output symbols" % (n, tot), " ; ".join(w), "", "probe,freeinit")
    t.small(ANALYSIS_SMALL[th], flags="probe")
    for g, s in analysis(th):
        t.add(g, s, flags="probe,budget=6000000")
    for g, _ in drawn("analysis", th, 200):
        t.add(DRAWN, g, flags="probe")
    hashed(t, th, "probe")
    t.add("no productions", "", "", "probe,freeinit")
    n = 40 if not th else 120
    for g, ch in (("very long unit chain", chain(n, lambda x, i: x, ["?1", "?2{N0,eps,a}"])),
                  ("very long nullable chain", chain(n, lambda x, i: "%s E" % x, ["?1"]) + ["E > eps", "E > ?2{a,N0,N3}"]),
                  ("very long cycle", chain(n, lambda x, i: "t %s" % x, ["N0", "?1"])),
                  ("very wide choice", ["S > t%d" % i for i in range(n)] + ["S > ?1", "S > S ?2{S,a,t3}"]),
                  ("very long output", ["S > " + " ".join(["E"] * n + ["?1"]), "E > eps", "E > ?2{a,S,E}"])):
        t.add(g, [ch, ch[::-1]], flags="probe,budget=60000000")
    return t


def pairs(ps):
    return "/".join("%s:%s" % p for p in ps)


def t_C18(th):
    """supplied sets: pairs x:y, y is in the set of x"""
    t = L("C18")

    def add(group, gs, tokens, first, follow):
        t.add(group, gs, tokens, "given,%sgfirst=%s,gfollow=%s" % ("nolr," if tokens else "probe,", pairs(first), pairs(follow)))
        fr = len({x for p in first + follow for x in p if x[0] == "?"})
        for g in gs if isinstance(gs, list) else []:
            if not tokens and fr + n_names(g) < 5:
                t.add("symbolic hash (1): " + group, g, tokens, "given,probe,hash=1,gfirst=%s,gfollow=%s" % (pairs(first), pairs(follow)))
    two, one = [("?a", "?b"), ("?c", "?d")], [("?a", "?b")]
    fo = [("?e", "?f")]
    for n, tot, f, g in ((1, 1, two, fo), (1, 2, one, fo), (1, 3, one, fo), (2, 2, one, fo), (2, 3, one, fo), (3, 3, one, [])) + \
            (((1, 2, two, fo), (2, 2, two, fo), (3, 3, one, fo), (2, 4, one, fo), (3, 4, one, []), (1, 4, one, fo)) if th else ()):
        for k in ("", "1", "2"):
            if tot + 2 * len(f) + len(g) + (int(k) if k else 0) > (7 if not th else 8):
                continue
            add("every symbol and every supplied member free: %d productions, %d output symbols, %s tokens" % (n, tot, k or "no"), small(n, 3, 3, tot), k, f, g)
    # supplied sets of the grammar's own symbols, with a few members free
    for g, f, h in (
            ("S > A B ; A > a ; A > eps ; B > b ; B > ?1", [("S", "a"), ("A", "eps"), ("A", "?a"), ("B", "b")], [("A", "b"), ("?e", "b")]),
            ("S > A B ; A > a ; A > eps ; B > b ; B > ?1", [("S", "a"), ("S", "b"), ("A", "a"), ("?a", "?b")], [("A", "?e"), ("B", "a")]),
            ("S > A B C d ; A > a ; B > b ; C > c ; C > eps", [("A", "?a"), ("B", "?b"), ("C", "?c"), ("S", "a")], [("S", "?e"), ("C", "a")]),
            ("S > A A ?1 ; A > a ; A > eps ; A > b A", [("A", "?a"), ("A", "?b"), ("S", "a")], [("A", "?e"), ("S", "b")]),
            ("S > a S ; S > ?1 ; S > b", [("S", "a"), ("S", "?a")], [("S", "?e")]),
            ("S > E E E a ; E > eps ; E > b ; S > b E", [("E", "?a"), ("?c", "eps"), ("S", "a")], [("E", "a"), ("?e", "?f")]),
            ("S > X ; X > Y ; Y > Z ; Z > z ; S > a ; X > b", [("Z", "?a"), ("Y", "?b"), ("X", "?c"), ("S", "a")], [("Y", "?e"), ("X", "b")]),
            ("A > a ; A > ?1 ; A > a B ; A > a ; B > b ; B > eps", [("A", "a"), ("B", "?a")], [("A", "?e"), ("B", "b")]),
            (EXPR, [("E", "("), ("E", "i"), ("T", "("), ("T", "i"), ("F", "("), ("F", "i"), ("R", "+"), ("R", "eps"), ("Q", "x"), ("Q", "eps"), ("S", "i"), ("S", "?b")],
             [("E", ")"), ("E", "$"), ("R", ")"), ("R", "$"), ("T", "+"), ("T", "$"), ("Q", "+"), ("Q", "$"), ("Q", ")"), ("?e", "$")])):
        for k in ("", "2", "a 2") if not th else ("", "1", "3", "a 2"):
            add("supplied sets of a grammar, some members free", [g, rev(g)] if not k else g, k.replace("a", "i") if g == EXPR else k, f, h)
    for n in (6, 12) if not th else (6, 12, 30):
        names = ["M%d" % i for i in range(n)]
        f = [(m, "eps") for i, m in enumerate(names) if i != n // 2] + [(m, "m%d" % i) for i, m in enumerate(names)] + [("M%d" % (n // 2), "?a")]
        add("wide nullable sequence", "S > %s ; " % " ".join(names) + " ; ".join("%s > m%d" % (m, i) for i, m in enumerate(names)), ["", "1"], f, [("S", "m3"), ("?e", "m2")])
        g = " ; ".join(chain(n, lambda x, i: x, ["a", "?1"]))
        add("unit chain", g, ["", "1"], [("N%d" % i, "a") for i in range(n) if i != n // 2] + [("N%d" % (n // 2), "?a"), ("N%d" % n, "?b")], [("N%d" % i, "b") for i in range(n)])
        add("many alternatives", "S > " + " ; S > ".join("M%d a" % i for i in range(n)) + " ; " + " ; ".join("M%d > m%d" % (i, i) for i in range(n)), ["", "1", "m0 1"],
            [("M%d" % i, "m%d" % i) for i in range(0, n, 2)] + [("M%d" % i, "m0") for i in range(1, n, 2)] + [("?a", "m1")], [("S", "?e")])
    return t


# ---------------------------------------------------------------- what the evidence says about them
GRAMMAR = ["ContextFreeGrammar::new and its private helpers", "ContextFreeGrammarProduction::new", "ContextFreeGrammar::get_productions, is_terminal, "
           "is_non_terminal, get_terminal_symbols, get_non_terminal_symbols, get_epsilon_symbol, get_initial_symbol"]
FF = ["FirstFollowSymbols::from, converge and its private helpers", "FirstFollowSymbols::get_first_symbols, get_follow_symbols"]
TABLE = ["RecursiveDescentParserTransitions::from and its private helpers", "RecursiveDescentParserTransitions::get_productions"]
PARSER = ["RecursiveDescentParser::from_grammar", "RecursiveDescentParser::parse_from_tokens and everything it calls", "AbstractSyntaxNode::new, "
          "AbstractSyntaxTree::new, FailedSymbol::new, FailedProduction::new", "Token::new, Clone for Token"]
SOLVER = ["RecursiveDescentParser::from_grammar_and_solver", "FixedSymbol::new, FixedProduction::new"]
FUNCTIONS = {"C01": GRAMMAR[:2], "C02": GRAMMAR, "C03": GRAMMAR + FF, "C04": GRAMMAR + FF, "C05": GRAMMAR + FF + TABLE, "C12": GRAMMAR + FF + TABLE + PARSER + SOLVER,
             "C13": GRAMMAR + FF + TABLE + PARSER + SOLVER, "C14": GRAMMAR + FF + TABLE + PARSER + SOLVER, "C09": GRAMMAR + FF + TABLE + PARSER + SOLVER,
             "C15": GRAMMAR + FF + TABLE + PARSER + SOLVER + ["RecursiveDescentParser::from_grammar_and_first_follow_symbols"],
             "C16": GRAMMAR + FF + TABLE + PARSER + ["PartialEq for Token (eq, ne), Clone for Token (clone, clone_from)"],
             "C18": GRAMMAR + ["FirstFollowSymbols::new, get_first_symbols, get_follow_symbols"] + TABLE + PARSER[1:] +
             ["RecursiveDescentParser::from_grammar_and_first_follow_symbols"],
             "C17": GRAMMAR + FF + TABLE + ["RecursiveDescentParser::from_grammar, from_grammar_and_first_follow_symbols, from_grammar_and_solver"]}


def functions(p):
    return FUNCTIONS.get(p, GRAMMAR + FF + TABLE + PARSER)


def bounds(p, tier):
    b = {"shapes": {}}
    for t in tasks(p, tier):
        e = b["shapes"].setdefault(t.group, {"inputs": 0, "max_productions": 0, "max_output_length": 0, "max_tokens": 0, "max_free_symbols": 0})
        ps = [x for x in t.grammar.split(";") if x.strip()]
        outs = [x.split(">")[1].split() for x in ps]
        n = 0
        for w in t.tokens.split():
            n += int(w) if w.isdigit() else int(w.split("*")[1]) if "*" in w else 1
        names = {w.split("{")[0] for x in ps for w in x.replace(">", " ").split() if w.startswith("?")}
        fr = len(names) + sum(int(w) if w.isdigit() else 0 for w in t.tokens.split())
        e["inputs"] += 1
        e["max_productions"] = max(e["max_productions"], len(ps))
        e["max_output_length"] = max([e["max_output_length"]] + [len(x) for x in outs])
        e["max_tokens"] = max(e["max_tokens"], n)
        e["max_free_symbols"] = max(e["max_free_symbols"], fr)
    b["outside"] = ("grammars and inputs of other shapes; hash functions with more classes than the shapes named \"symbolic hash (n)\" have "
                    "(2^n); elsewhere all symbols hash alike")
    return b


def assumptions(p):
    a = ["symbols obey the laws their bounds state: == is an equivalence, hash and clone agree with it (the code under test sees them only through "
         "Clone, Eq and Hash)", "std collections and the compiler are trusted"]
    if p != "C01":
        a.append("the grammar is one that ContextFreeGrammar::new accepts")
    if p in ("C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"):
        a.append("the grammar has no left recursion (the documented limit of a recursive-descent parser)")
    if p == "C18":
        a.append("supplied FIRST sets: one for every symbol of the grammar, of its terminals and epsilon; supplied FOLLOW sets: one for every non-terminal, of its "
                 "terminals; a terminal's (and epsilon's) FIRST set contains the terminal itself")
    if p in ("C15", "C16", "C18"):
        a.append("inputs that are parsed: no left recursion")
    if p in ("C07", "C11"):
        a.append("LL(1), end-marked: the initial symbol occurs in no output and its productions, and only they, end in a terminal that occurs nowhere else")
    if p == "C11":
        a.append("every symbol is reachable and productive")
    if p in ("C09",):
        a.append("the solver answers finitely often or always moves forward")
    return a
