"""Concrete oracle: judges one observation of the real code on one concrete input. Written independently of the SMT
circuits (fixpoints over sets, Earley recognition, recursive search); used to confirm every solver counterexample before
it is reported and to validate the encoding on sampled paths."""
import sys
sys.setrecursionlimit(100000)


class Inp:
    def __init__(self, text):
        self.text = text
        self.prods = []
        self.flags = set()
        self.kv = {}
        self.prop = ""
        for line in text.splitlines():
            k, _, v = line.partition(" ")
            if k == "prop":
                self.prop = v.strip()
            elif k == "flags":
                self.flags = set(x.split("=")[0] for x in v.split(",") if x)
            elif k == "prod":
                a, _, b = v.partition(":")
                self.prods.append((int(a), tuple(int(x) for x in b.split())))
            elif k in ("eps", "init", "seed"):
                self.kv[k] = int(v)
            elif k in ("gfirst", "gfollow"):
                w = [int(x) for x in v.split()]
                self.kv[k] = list(zip(w[::2], w[1::2]))
            elif k in ("tokens", "lex", "lex2", "probes", "before", "hashm", "choices", "consts", "regrouped", "shuffled"):
                self.kv[k] = [int(x) for x in v.split()]
        self.eps, self.init = self.kv["eps"], self.kv["init"]
        self.tokens = self.kv.get("tokens", [])
        self.marker = None


def has_lex(i, variant):
    return i % 3 != 1 if variant == 0 else i % 3 == 1


class G:
    """grammar analysis by set fixpoints"""

    def __init__(self, inp):
        self.i = inp
        self.prods, self.eps, self.init = inp.prods, inp.eps, inp.init
        self.nts = []
        for a, _ in self.prods:
            if a not in self.nts:
                self.nts.append(a)
        self.ntset = set(self.nts)
        self.by = {a: [k for k, p in enumerate(self.prods) if p[0] == a] for a in self.nts}
        self.occ = {x for _, o in self.prods for x in o}
        self.ts = {x for x in self.occ if x not in self.ntset}
        self.gfirst = None
        self.null = set()
        self.first = {a: set() for a in self.nts}
        ch = True
        while ch:
            ch = False
            for a, o in self.prods:
                f, n = self.first_of(o)
                if n and a not in self.null:
                    self.null.add(a)
                    ch = True
                if not f <= self.first[a]:
                    self.first[a] |= f
                    ch = True
        self.follow = {a: set() for a in self.nts}
        ch = True
        while ch:
            ch = False
            for a, o in self.prods:
                trailer = set(self.follow[a])
                for x in reversed(o):
                    if x in self.ntset:
                        if not trailer <= self.follow[x]:
                            self.follow[x] |= trailer
                            ch = True
                        trailer = (trailer | self.first[x]) if x in self.null else set(self.first[x])
                    elif x != self.eps:
                        trailer = {x}

    def first_of(self, o):
        f = set()
        for x in o:
            if x in self.ntset:
                f |= self.first[x]
                if x not in self.null:
                    return f, False
            elif x != self.eps:
                f.add(x)
                return f, False
        return f, True

    def use_given(self):
        """the supplied sets instead of the computed ones"""
        syms = self.ntset | self.occ | {self.eps}
        self.gfirst = {x: set() if x in self.ntset else {x} for x in syms}
        self.gfollow = {x: set() for x in self.ntset}
        for x, y in self.i.kv.get("gfirst", []):
            self.gfirst.setdefault(x, set()).add(y)
        for x, y in self.i.kv.get("gfollow", []):
            self.gfollow.setdefault(x, set()).add(y)

    def predict(self, k, t):
        a, o = self.prods[k]
        if self.gfirst is not None:
            for x in o:
                if t in self.gfirst[x] and t != self.eps:
                    return True
                if self.eps not in self.gfirst[x]:
                    return False
            return t in self.gfollow[a]
        f, n = self.first_of(o)
        return t in f or (n and t in self.follow[a])

    def cands(self, x, t):
        return [k for k in self.by.get(x, []) if self.predict(k, t)]

    def at(self, x, pos):
        return self.cands(x, self.i.tokens[pos]) if 0 <= pos < len(self.i.tokens) else []

    def well_formed(self):
        return all(a != self.eps and len(o) > 0 and not (len(o) > 1 and self.eps in o) for a, o in self.prods)

    def left_recursive(self):
        edges = {a: set() for a in self.nts}
        for a, o in self.prods:
            for x in o:
                if x in self.ntset:
                    edges[a].add(x)
                    if x not in self.null:
                        break
                elif x != self.eps:
                    break
        for a in self.nts:
            seen, todo = set(), list(edges[a])
            while todo:
                x = todo.pop()
                if x == a:
                    return True
                if x not in seen:
                    seen.add(x)
                    todo += edges[x]
        return False

    def ll1(self):
        for a in self.nts:
            ks = self.by[a]
            for x in range(len(ks)):
                for y in range(x):
                    p, q = self.prods[ks[x]][1], self.prods[ks[y]][1]
                    (f, n), (g, m) = self.first_of(p), self.first_of(q)
                    s = f | (self.follow[a] if n else set())
                    t = g | (self.follow[a] if m else set())
                    if (n and m) or s & t:
                        return False
        return True

    def reachable(self):
        seen, todo = {self.init}, [self.init]
        while todo:
            x = todo.pop()
            for k in self.by.get(x, []):
                for y in self.prods[k][1]:
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
        return all(a in seen for a in self.nts)

    def productive(self):
        p, ch = set(), True
        while ch:
            ch = False
            for a, o in self.prods:
                if a not in p and all(x in p or x not in self.ntset for x in o):
                    p.add(a)
                    ch = True
        return p == self.ntset

    def end_marker(self):
        """the marker if the grammar is end-marked, else None"""
        ends = {self.prods[k][1][-1] for k in self.by.get(self.init, [])}
        if len(ends) != 1 or self.init in self.occ:
            return None
        d = ends.pop()
        if d in self.ntset or d == self.eps:
            return None
        for a, o in self.prods:
            n = o.count(d)
            if n != (1 if a == self.init else 0):
                return None
        return d

    def earley(self, toks):
        """(length of the longest prefix some sentence can start with - all symbols productive, is a sentence)"""
        cols = [set()]
        for k in self.by.get(self.init, []):
            cols[0].add((k, 0, 0))
        n = 0
        while True:
            col = cols[n]
            todo = list(col)

            def add(it):
                if it not in col:
                    col.add(it)
                    todo.append(it)
            while todo:
                k, d, o = todo.pop()
                out = self.prods[k][1]
                if d == len(out):
                    a = self.prods[k][0]
                    for (k2, d2, o2) in list(cols[o]):
                        o3 = self.prods[k2][1]
                        if d2 < len(o3) and o3[d2] == a:
                            add((k2, d2 + 1, o2))
                    continue
                x = out[d]
                if x in self.ntset:
                    for q in self.by[x]:
                        add((q, 0, n))
                    if x in self.null:
                        add((k, d + 1, o))
                elif x == self.eps:
                    add((k, d + 1, o))
            if n == len(toks):
                break
            nxt = set()
            for k, d, o in col:
                out = self.prods[k][1]
                if d < len(out) and out[d] == toks[n] and out[d] not in self.ntset and out[d] != self.eps:
                    nxt.add((k, d + 1, o))
            if not nxt:
                return n, False
            cols.append(nxt)
            n += 1
        done = any(self.prods[k][0] == self.init and d == len(self.prods[k][1]) and o == 0 for k, d, o in cols[n])
        return n, done


def assumptions(inp):
    """None, or why the input is outside its task's declared bounds (an error of the machinery)"""
    g, f = G(inp), inp.flags
    if "any" not in f and not g.well_formed():
        return "ill-formed grammar"
    if "nolr" in f and g.left_recursive():
        return "left-recursive grammar"
    if "em" in f and g.end_marker() is None:
        return "not end-marked"
    if "ll1" in f and not g.ll1():
        return "not LL(1)"
    if "conflict" in f and g.ll1():
        return "LL(1)"
    if "reach" in f and not g.reachable():
        return "unreachable symbols"
    if "given" in f:
        for k in ("gfirst", "gfollow"):
            for _, y in inp.kv.get(k, []):
                if not (y in g.ts and y != inp.eps or y == inp.eps and k == "gfirst"):
                    return "supplied sets outside the grammar"
    if "prod" in f and not g.productive():
        return "unproductive symbols"
    return None


class Bad(Exception):
    pass


def need(c, why):
    if not c:
        raise Bad(why)


def lex_at(pos, variant=0):
    return pos if has_lex(pos, variant) else None


# ---- trees: [sym, lex, kids] ----
def tree_check(g, t, pos, variant=0, fit=False):
    sym, lex, kids = t
    toks = g.i.tokens
    if not kids:
        if sym == g.eps:
            need(lex is None, "an epsilon leaf carries a lexeme")
            return pos
        need(sym not in g.ntset, f"non-terminal {sym} has no children")
        need(pos < len(toks), "more leaves than tokens")
        need(sym == toks[pos], f"leaf {sym} where token {pos} is {toks[pos]}")
        need(lex == lex_at(pos, variant), f"leaf {pos} has lexeme {lex}")
        return pos + 1
    need(lex is None, "an inner node carries a lexeme")
    out = tuple(k[0] for k in kids)
    need(any(g.prods[m] == (sym, out) for m in g.by.get(sym, [])), f"{sym} -> {out} is not a production")
    if fit:
        need(any(g.prods[m] == (sym, out) for m in g.at(sym, pos)), f"{sym} -> {out} does not fit the token at {pos}")
    for k in kids:
        pos = tree_check(g, k, pos, variant, fit)
    return pos


def leaf_count(g, t):
    if not t[2]:
        return 0 if t[0] == g.eps else 1
    return sum(leaf_count(g, k) for k in t[2])


# ---- the ordered search ----
class Search:
    def __init__(self, g):
        self.g, self.memo = g, {}

    def prod(self, m, i):
        """first tree for production m at i: (children, end) or None"""
        if (m, i) not in self.memo:
            self.memo[(m, i)] = self.rest(self.g.prods[m][1], 0, i)
        return self.memo[(m, i)]

    def rest(self, out, j, i):
        if j == len(out):
            return [], i
        g, x = self.g, out[j]
        if x in g.ntset:
            for q in g.at(x, i):
                r = self.prod(q, i)
                if r is not None:
                    s = self.rest(out, j + 1, r[1])
                    if s is not None:
                        return [[x, None, r[0]]] + s[0], s[1]
            return None
        if x == g.eps:
            s = self.rest(out, j + 1, i)
            return None if s is None else ([[x, None, []]] + s[0], s[1])
        if i < len(g.i.tokens) and g.i.tokens[i] == x:
            s = self.rest(out, j + 1, i + 1)
            return None if s is None else ([[x, lex_at(i), []]] + s[0], s[1])
        return None

    def run(self):
        for m in self.g.at(self.g.init, 0):
            r = self.prod(m, 0)
            if r is not None:
                return [self.g.init, None, r[0]]
        return None


# ---- failure reports: [sym, [[parsed, failed, pending]]] ----
def fail_check(g, f, pos, calls=None, fit=False):
    sym, entries = f
    if sym not in g.ntset:
        need(not entries, f"terminal {sym} has failed productions")
        need(sym != g.eps, "epsilon reported as failed")
        need(pos >= len(g.i.tokens) or g.i.tokens[pos] != sym, f"terminal {sym} reported as failed at {pos} although it is there")
        return
    want = [g.prods[m][1] for m in g.at(sym, pos)]
    got = [entry_out(e) for e in entries]
    need(want == got, f"entries for {sym} at {pos} are {got}, the fitting productions are {want}")
    for parsed, failed, _ in entries:
        p = pos
        for s in parsed:
            if s[0] == "ok":
                p = tree_check(g, s[1], p, fit=fit)
            else:
                need(calls is not None, "a fix without a solver")
                p = fixed_check(g, s[1], p, calls)
        fail_check(g, failed, p, calls, fit)


def entry_out(e):
    return tuple([s[1][0] for s in e[0]] + [e[1][0]] + e[2])


def resume_at(j, pos, n):
    far = (1 << 64) - 1
    return {1: min(pos + 1, far), 2: pos, 3: min(pos + 2, far), 4: 0}.get(j, far if pos % 2 == 0 else n + 7)


# ---- fixes: [sym, parts] ----
SUPPLIED = 1000000


def supplied(n, t):
    i = SUPPLIED + n
    if n == 1:
        return []
    if n % 3 == 0:
        return [["gap", [i], []], ["gap", [], [t]]]
    if n % 3 == 1:
        return [["ok", [t, i, []]], ["gap", [], []]]
    return [["gap", [], [t, t]], ["fix", [t, [["gap", [i], [t]]]]]]


def supplied_by(p):
    k = [x[0] for x in p]
    i = None
    if not p:
        return 1
    if k == ["gap", "gap"] and p[0][1]:
        i = p[0][1][0]
    elif k == ["ok", "gap"]:
        i = p[0][1][1]
    elif k == ["gap", "fix"] and len(p[1][1][1]) == 1 and p[1][1][1][0][0] == "gap" and p[1][1][1][0][1]:
        i = p[1][1][1][0][1][0]
    return i - SUPPLIED if i is not None and i >= SUPPLIED else None


def fixed_check(g, f, pos, calls):
    sym, parts = f
    n = supplied_by(parts)
    if n is not None:
        need(n < len(calls) and calls[n]["answer"] is not None, "a fix nobody supplied")
        need(calls[n]["pos"] == pos, f"fix {n} was asked at {calls[n]['pos']}, stands at {pos}")
        need(sym in g.ntset, "a fixed terminal")
        need([entry_out(e) for e in calls[n]["failed"]] == [g.prods[m][1] for m in g.at(sym, pos)],
             f"fix {n} was not about symbol {sym}")
        need(parts == supplied(n, g.i.tokens[0]), "not the parts the solver supplied")
        return calls[n]["answer"]
    out, p, fixes = [], pos, 0
    for part in parts:
        need(part[0] != "gap", "a gap among a production's parts")
        out.append(part[1][0])
        if part[0] == "ok":
            p = tree_check(g, part[1], p)
        else:
            fixes += 1
            p = fixed_check(g, part[1], p, calls)
    need(fixes > 0, "a fixed production without a fix")
    need(any(g.prods[m][1] == tuple(out) for m in g.at(sym, pos)), f"parts {out} are no fitting production of {sym}")
    return p


class Proto:
    """the solver protocol, given the answers"""

    def __init__(self, g, inp):
        self.g, self.inp, self.calls, self.on = g, inp, [], False

    def run(self):
        self.on = False
        r = self.sym(self.g.init, 0, self.g.at(self.g.init, 0), True)
        if r[0] == "err":
            self.on = True
            r = self.sym(self.g.init, 0, self.g.at(self.g.init, 0), True)
        return r[:2], self.calls

    def answer(self, pos):
        n = len(self.calls)
        ch, ks = self.inp.kv.get("choices", []), self.inp.kv.get("consts", [])
        if n < len(ch):
            for j in range(1, len(ks)):
                if ch[n] == ks[j]:
                    return resume_at(j, pos, len(self.inp.tokens))
        return None

    def sym(self, x, pos, cands, single):
        failed = []
        for k, m in enumerate(cands):
            r = self.prod(x, m, pos, single and len(cands) == 1)
            if r[0] == "ok":
                return "ok", r[1], r[2], cands[k + 1:]
            if r[0] == "fix":
                return r
            failed.append(r[1])
        if self.on and single:
            a = self.answer(pos)
            self.calls.append({"single": len(cands) == 1, "pos": pos, "failed": failed, "answer": a})
            if a is not None:
                return "fix", [x, supplied(len(self.calls) - 1, self.inp.tokens[0])], a
        return "err", [x, failed]

    def prod(self, x, m, pos, single):
        g, out, st = self.g, self.g.prods[m][1], []   # st: (kind, value, start, end, untried)
        while len(st) < len(out):
            y = out[len(st)]
            if y in g.ntset:
                r = self.sym(y, pos, g.at(y, pos), single)
            elif y == g.eps:
                r = ("ok", [y, None, []], pos, [])
            elif pos < len(g.i.tokens) and g.i.tokens[pos] == y:
                r = ("ok", [y, lex_at(pos), []], pos + 1, [])
            else:
                r = ("err", [y, []])
            if r[0] == "ok":
                st.append(("ok", r[1], pos, r[2], r[3]))
                pos = r[2]
            elif r[0] == "fix":
                st.append(("fix", r[1], pos, r[2], []))
                pos = r[2]
            else:
                for k in reversed(range(len(st))):
                    if st[k][4]:
                        q = self.sym(st[k][1][0], st[k][2], st[k][4], False)
                        if q[0] == "ok":
                            st = st[:k] + [("ok", q[1], st[k][2], q[2], q[3])]
                            pos = q[2]
                            break
                else:
                    return "err", [[[s[0], s[1]] for s in st], r[1], list(out[len(st) + 1:])]
        if any(s[0] == "fix" for s in st):
            return "fix", [x, [[s[0], s[1]] for s in st]], pos
        return "ok", [x, None, [s[1] for s in st]], pos


def same_calls(a, b):
    return len(a) == len(b) and all(x[k] == y[k] for x, y in zip(a, b) for k in ("single", "pos", "failed", "answer"))


def strip_tree(t):
    return [t[0], None, [strip_tree(k) for k in t[2]]]


def strip_fail(f):
    return [f[0], [[[[s[0], strip_tree(s[1])] for s in e[0]], strip_fail(e[1]), e[2]] for e in f[1]]]


def lex_tree(g, t, pos, variant):
    if not t[2]:
        if t[0] == g.eps:
            need(t[1] is None, "an epsilon leaf carries a lexeme")
            return pos
        need(t[1] == lex_at(pos, variant), f"token {pos} came out with lexeme {t[1]}")
        return pos + 1
    need(t[1] is None, "an inner node carries a lexeme")
    for k in t[2]:
        pos = lex_tree(g, k, pos, variant)
    return pos


def lex_fail(g, f, pos, variant):
    for parsed, failed, _ in f[1]:
        p = pos
        for s in parsed:
            p = lex_tree(g, s[1], p, variant)
        lex_fail(g, failed, p, variant)


def norm(o):
    """observations up to the order inside sets"""
    if "first" in o or "follow" in o:
        k = "first" if "first" in o else "follow"
        return {k: [[x, None if s is None else sorted(s)] for x, s in o[k]]}
    return o


def judge(prop, inp, o):
    """(True, '') or (False, reason)"""
    try:
        _judge(prop, inp, o)
        return True, ""
    except Bad as e:
        return False, str(e)


def _judge(prop, inp, o):
    g = G(inp)
    if prop == "C01":
        bad = not g.well_formed()
        need(("panic" in o) == bad, f"{'rejected' if 'panic' in o else 'accepted'} although the grammar is {'ill' if bad else 'well'}-formed")
        return
    if prop == "C09" and not inp.tokens:
        need("panic" in o, "the empty token sequence is not rejected by a panic")
        return
    if "crash" in o:
        raise Bad(o["crash"])
    if "panic" in o:
        raise Bad("panicked: " + o["panic"])
    if prop in ("C09", "C17"):
        return
    if prop == "C02":
        r = o["grammar"]
        need(len(set(r["nts"])) == len(r["nts"]) and set(r["nts"]) == g.ntset, f"non-terminals {r['nts']}")
        need(len(set(r["ts"])) == len(r["ts"]) and set(r["ts"]) == g.ts, f"terminals {r['ts']}")
        need(r["eps"] == g.eps and r["init"] == g.init, "epsilon or initial symbol changed")
        for x, nt, t, ps in r["q"]:
            need(nt == (x in g.ntset), f"is_non_terminal({x}) = {nt}")
            need(t == (x in g.ts), f"is_terminal({x}) = {t}")
            want = [[a, list(b)] for a, b in g.prods if a == x] if x in g.ntset else None
            need(ps == want, f"productions of {x}: {ps}, declared {want}")
    elif prop == "C03":
        for x, s in o["first"]:
            if x in g.ntset:
                want = g.first[x] | ({g.eps} if x in g.null else set())
                need(s is not None and set(s) == want and len(s) == len(want), f"FIRST({x}) = {s}, should be {sorted(want)}")
            elif x in g.occ:
                need(s == [x], f"FIRST of terminal {x} = {s}")
            else:
                need(s is None, f"FIRST of unknown {x} = {s}")
    elif prop == "C04":
        for x, s in o["follow"]:
            if x in g.ntset:
                want = g.follow[x]
                need(s is not None and set(s) == want and len(s) == len(want), f"FOLLOW({x}) = {s}, should be {sorted(want)}")
            else:
                need(s is None, f"FOLLOW({x}) = {s} although {x} is no non-terminal")
    elif prop == "C05":
        for x, t, ps in o["table"]:
            want = [[x, list(g.prods[m][1])] for m in g.cands(x, t)]
            need(ps == want, f"table[{x},{t}] = {ps}, should be {want}")
    elif prop in ("C06", "C07", "C08", "C10", "C11"):
        kind, r = o["parse"]["res"]
        need(kind != "fix", "a fix without a solver")
        if prop == "C06" and kind == "ok":
            need(r[0] == g.init, "the root is not the initial symbol")
            tree_check(g, r, 0)
        elif prop == "C07":
            d = g.end_marker()
            want = False
            if d in inp.tokens:
                k = inp.tokens.index(d) + 1
                n, s = g.earley(inp.tokens[:k])
                want = n == k and s
            need((kind == "ok") == want, f"{'accepted' if kind == 'ok' else 'rejected'}, the input {'is' if want else 'is not'} a sentence")
        elif prop == "C08":
            want = Search(g).run()
            need((kind == "ok") == (want is not None), f"{kind}, but the search {'succeeds' if want else 'fails'}")
            if want is not None:
                need(r == want, f"tree {r}, the search finds {want} first")
        elif prop == "C10" and kind == "err":
            need(r[0] == g.init, "the report is not about the initial symbol")
            fail_check(g, r, 0, fit=True)
        elif prop == "C11" and kind == "err":
            pos, f = 0, r
            while f[1]:
                need(len(f[1]) == 1, "several failed productions on an LL(1) grammar")
                parsed, failed, _ = f[1][0]
                for s in parsed:
                    need(s[0] == "ok", "a fix without a solver")
                    n = leaf_count(g, s[1])
                    got = []

                    def leaves(t):
                        if not t[2]:
                            if t[0] != g.eps:
                                got.append((t[0], t[1]))
                        for k in t[2]:
                            leaves(k)
                    leaves(s[1])
                    want = [(inp.tokens[p], lex_at(p)) for p in range(pos, min(pos + n, len(inp.tokens)))]
                    need(got == want, f"parsed tokens {got}, the input has {want}")
                    pos += n
                f = failed
            n, _ = g.earley(inp.tokens)
            need(pos == n, f"the report ends after {pos} tokens, the longest viable prefix has {n}")
    elif prop == "C12":
        m = {k: v["parse"] for k, v in o["many"]}
        kind = m["plain"]["res"][0]
        need(kind != "fix", "a fix without a solver")
        need(m["declined"]["res"] == m["plain"]["res"], "a declining solver changes the result")
        if kind == "ok":
            need(not m["declined"]["calls"] and not m["eager"]["calls"], "the solver is consulted about an acceptable input")
            need(m["eager"]["res"] == m["plain"]["res"], "an eager solver changes the result of an acceptable input")
    elif prop == "C13":
        p = o["parse"]
        _, calls = Proto(g, inp).run()
        for c in p["calls"]:
            need(c["tokens"] == [[t, lex_at(k)] for k, t in enumerate(inp.tokens)], "the solver was given other tokens")
        need(same_calls(p["calls"], calls), f"solver calls {brief(p['calls'])}, due were {brief(calls)}")
    elif prop == "C14":
        p = o["parse"]
        ans = [k for k, c in enumerate(p["calls"]) if c["answer"] is not None]
        kind, r = p["res"]
        if not ans:
            need(kind != "fix", "a fix nobody supplied")
            return
        need(r[0] == g.init, "the result is not about the initial symbol")
        if kind == "fix":
            fixed_check(g, r, 0, p["calls"])
        elif kind == "ok":
            tree_check(g, r, 0)
        else:
            fail_check(g, r, 0, p["calls"])
        res, calls = Proto(g, inp).run()
        n = ans[0]
        if len(calls) > n and same_calls(p["calls"][:n + 1], calls[:n + 1]):
            need([kind, r] == list(res), f"result {[kind, r]}, the fixes lead to {list(res)}")
    elif prop == "C15":
        m = o["many"]
        for kind in ("first", "follow", "table", "parse"):
            l = [(k, v) for k, v in m if k.endswith(kind)]
            for k, v in l[1:]:
                need(norm(v) == norm(l[0][1]), f"'{k}' differs from '{l[0][0]}'")
    elif prop == "C18":
        g.use_given()
        m = dict(o["many"])
        for k, sets in (("first", g.gfirst), ("follow", g.gfollow)):
            for x, s in m[k][k]:
                want = sets.get(x)
                need((s is None) == (want is None) and (s is None or set(s) == want and len(s) == len(want)), f"supplied {k} set of {x} is {want}, returned {s}")
        for x, t, ps in m["table"]["table"]:
            want = [[x, list(g.prods[k][1])] for k in g.cands(x, t)]
            need(ps == want, f"table[{x},{t}] = {ps}, should be {want}")
        if "parse" in m:
            kind, r = m["parse"]["parse"]["res"]
            want = Search(g).run()
            need(kind != "fix", "a fix without a solver")
            need((kind == "ok") == (want is not None), f"{kind}, but the search {'succeeds' if want else 'fails'}")
            if want is not None:
                need(r == want, f"tree {r}, the search finds {want} first")
    elif prop == "C16":
        first = None
        for name, v in o["many"]:
            if "token" in v:
                same = inp.tokens[0] == inp.tokens[1]
                for a, b, eq, ne in v["token"]["cmp"]:
                    need(eq == same and ne == (not same), f"== is {eq} and != is {ne} for types {'equal' if same else 'different'}")
                for t, l, u, k in v["token"]["clones"]:
                    need(t == u and l == k, "a clone differs")
            else:
                variant = 1 if name == "lex 2" else 0
                kind, r = v["parse"]["res"]
                need(kind != "fix", "a fix without a solver")
                if kind == "ok":
                    lex_tree(g, r, 0, variant)
                else:
                    lex_fail(g, r, 0, variant)
                s = [kind, strip_tree(r) if kind == "ok" else strip_fail(r)]
                if first is None:
                    first = s
                need(s == first, f"'{name}' parses differently")
    else:
        raise ValueError(prop)


def brief(calls):
    return [("single" if c["single"] else "multi", c["pos"], [entry_out(e) for e in c["failed"]], c["answer"]) for c in calls]
