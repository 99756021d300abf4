#!/usr/bin/env python3
"""Draws input shapes at random (fixed seed), keeps those the explorer finishes quickly and that reach different
outcomes, and writes them to vlib/shapes.json. Run by hand; the checks only read the file."""
import json, os, random, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "vlib"))
import oracle, runner


def text(prods):
    return " ; ".join("%s > %s" % (a, " ".join(o)) for a, o in prods)


def gram(prods, init):
    """the oracle's grammar analysis of a concrete grammar"""
    ids = {"eps": 0}
    s = lambda x: ids.setdefault(x, len(ids))
    i = oracle.Inp("eps 0\ninit %d\n%s" % (s(init), "\n".join("prod %d : %s" % (s(a), " ".join(str(s(x)) for x in o)) for a, o in prods)))
    return oracle.G(i), ids


def draw(r, nts, nprods, terms, maxlen, peps, norec):
    prods = []
    pool = list(nts) + [r.choice(nts) for _ in range(nprods - len(nts))]
    if r.random() < .5:
        pool[1:] = r.sample(pool[1:], len(pool) - 1)
    for a in pool:
        if a != nts[0] and r.random() < peps:
            prods.append((a, ["eps"]))
            continue
        n = r.choice([1, 2, 2, 3, 3, 4][:maxlen + 2])
        o = []
        for k in range(n):
            x = r.random()
            later = nts[nts.index(a) + 1:]
            solid = any(y in terms for y in o)
            if x < .5 and (not norec or solid):
                o.append(r.choice(nts))
            elif x < .55 and later:
                o.append(r.choice(later))
            else:
                o.append(r.choice(terms))
        prods.append((a, o))
    return prods


def free(r, prods, n, lo=0):
    """makes n output slots free"""
    slots = [(i, k) for i, (a, o) in enumerate(prods) for k in range(len(o)) if o[k] != "$"]
    r.shuffle(slots)
    out = [(a, list(o)) for a, o in prods]
    for j, (i, k) in enumerate(slots[:n]):
        out[i][1][k] = "?%d" % (j + 1)
    return out


def sentence(r, prods, init, depth=8):
    by = {}
    for a, o in prods:
        by.setdefault(a, []).append(o)

    def go(x, d):
        if x == "eps":
            return []
        if x not in by:
            return [x]
        os_ = by[x] if d > 0 else sorted(by[x], key=lambda o: sum(y in by for y in o))[:1]
        if d < -4:
            return None
        out = []
        for y in r.choice(os_):
            w = go(y, d - 1)
            if w is None or len(out) + len(w) > 30:
                return None
            out += w
        return out
    return go(init, depth)


def tokens(r, prods, init, terms, maxlen, nfree):
    for _ in range(30):
        w = sentence(r, prods, init)
        if not w or len(w) > maxlen or len(w) < 3 and r.random() < .7:
            continue
        w = list(w)
        x = r.random()
        if x < .25 and len(w) > 1:
            w = w[:r.randint(1, len(w))]
        elif x < .4:
            w.insert(r.randint(0, len(w)), r.choice(terms))
        elif x < .5 and len(w) > 1:
            del w[r.randrange(len(w))]
        if r.random() < .5:
            pos = list(range(max(0, len(w) - nfree), len(w)))
        else:
            pos = r.sample(range(len(w)), min(nfree, len(w)))
        return " ".join("1" if i in pos else t for i, t in enumerate(w))
    return None


def cand_analysis(r):
    nts = ["S", "A", "B", "C", "D"][:r.randint(2, 5)]
    terms = ["a", "b", "c", "d"][:r.randint(1, 4)]
    p = draw(r, nts, len(nts) + r.randint(1, 4), terms, 4, .25, False)
    if r.random() < .7 and not reach(p):
        return None
    return text(free(r, p, r.randint(2, 4))), ""


def cand_parse(r):
    nts = ["S", "A", "B", "C"][:r.randint(2, 4)]
    terms = ["a", "b", "c"][:r.choice([1, 2, 2, 3])]
    p = draw(r, nts, len(nts) + r.randint(1, 4), terms, 4, .18, True)
    g, _ = gram(p, "S")
    if g.left_recursive() or r.random() < .9 and not reach(p) or r.random() < .8 and choices(g) < 2:
        return None
    t = tokens(r, p, "S", terms, 8, r.choice([2, 3, 3, 4]))
    return (text(free(r, p, r.choice([0, 1, 1, 2]))), t) if t else None


def cand_ll1(r):
    nts = ["X", "A", "B", "C", "D"][:r.randint(2, 5)]
    terms = ["a", "b", "c", "d", "e"][:r.randint(2, 5)]
    p = draw(r, nts, len(nts) + r.randint(0, 4), terms, 4, .3, True)
    p = [("S", [r.choice(nts), "$"])] + p if r.random() < .7 else [("S", r.sample(nts, 2) + ["$"]), ("S", [r.choice(terms), r.choice(nts), "$"])] + p
    g, _ = gram(p, "S")
    if g.left_recursive() or not g.ll1() or r.random() < .9 and not reach(p) or len({a for a, _ in p}) < 3:
        return None
    t = tokens(r, p, "S", terms + ["$"], 10, r.choice([2, 2, 3]))
    return (text(free(r, p, r.choice([0, 1, 2]))), t) if t else None


def reach(p):
    seen, todo = {"S"}, ["S"]
    while todo:
        x = todo.pop()
        for a, o in p:
            if a == x:
                for y in o:
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
    return all(a in seen for a, _ in p)


def choices(g):
    """entries of the prediction table with more than one production"""
    return sum(len(g.cands(a, t)) > 1 for a in g.nts for t in g.ts)


KINDS = {"analysis": (cand_analysis, [("C04", "probe"), ("C05", "probe")], 1),
         "parse": (cand_parse, [("C08", "nolr"), ("C10", "nolr"), ("C14", "nolr,solver=1,resume=2")], 2),
         "ll1": (cand_ll1, [("C07", "em,nolr,ll1"), ("C11", "em,nolr,ll1,reach,prod")], 2)}


def make(kind, want, seed, ms):
    gen, reps, outcomes = KINDS[kind]
    r = random.Random(seed)
    bins, _ = runner.build()
    out, seen = [], set()
    while len(out) < want:
        batch = []
        while len(batch) < 400:
            c = gen(r)
            if c and c not in seen:
                seen.add(c)
                batch.append(c)
        ok = {c: True for c in batch}
        ex = {}
        for prop, flags in reps:
            ts = [runner.Task(prop, c[0], c[1], flags, 1, c) for c in batch if ok[c]]

            def on(t, x):
                c = t.group
                if "crash" in x or x["error"] or x["viol"] or x["unknown"] or not x["done"] or x["vacuous"] or x["ms"] > ms:
                    ok[c] = False
                elif x["paths"] < 6 or len([k for k in x["kinds"] if k != "parse fixed"]) < outcomes:
                    ok[c] = False
                else:
                    ex[c] = max(ex.get(c, 0), x["ms"])
            runner.run_tasks(bins["dev"], ts, time.time() + 3600, on, task_ms=ms + 500)
        for c in batch:
            if ok[c] and len(out) < want:
                out.append([c[0], c[1]])
        print(kind, len(out), "of", want, file=sys.stderr, flush=True)
    return out


if __name__ == "__main__":
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 600
    res = {k: make(k, n, 20240 + i, 900) for i, k in enumerate(KINDS)}
    with open(os.environ.get("OUT") or os.path.join(HERE, "..", "vlib", "shapes.json"), "w") as f:
        f.write("{\n" + ",\n".join(json.dumps(k) + ": [\n" + ",\n".join(json.dumps(x) for x in v) + "\n]" for k, v in res.items()) + "\n}\n")
