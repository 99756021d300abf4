#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]   decide one property on /repo's current tree
   check.py --replay FILE                  judge one recorded input again
   check.py --build                        build the harness"""
import argparse, collections, hashlib, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vlib"))
import oracle, runner, tasks as tasklib

LIMIT = {"quick": 400, "thorough": 3000}


def confirm(bins, text, prop):
    """Replays an input on the real code. Returns (confirmed, reason, runs)."""
    inp = oracle.Inp(text)
    why = oracle.assumptions(inp)
    if why:
        return False, "outside the assumed inputs: " + why, []
    seed = inp.kv.get("seed", 1)
    runs, reason = [], None
    tries = [("dev", "u32", seed), ("dev", "flat", seed)]
    if inp.kv.get("hashm"):
        tries.append(("dev", "marked", seed))
    if prop == "C15":
        tries += [("dev", "u32", s) for s in range(1, 25)]
    for prof, kind, s in tries:
        o = runner.native(bins[prof], text, s, kind)
        ok, r = oracle.judge(prop, inp, o)
        runs.append({"profile": prof, "symbols": kind, "seed": s, "violated": not ok, "why": r[:2000]})
        if not ok:
            reason = r
            o2 = runner.native(bins["release"], text, s, kind)
            ok2, r2 = oracle.judge(prop, inp, o2)
            runs.append({"profile": "release", "symbols": kind, "seed": s, "violated": not ok2, "why": r2[:2000]})
            break
    return reason is not None, reason or "", runs


def describe(text):
    i = oracle.Inp(text)
    n = {i.eps: "eps"}
    for a, _ in i.prods:
        if a not in n:
            n[a] = "N%d" % len([x for x in n.values() if x.startswith("N")])

    def s(x):
        if x not in n:
            n[x] = "t%d" % len([y for y in n.values() if y.startswith("t")])
        return n[x]
    g = "; ".join("%s -> %s" % (s(a), " ".join(map(s, b))) for a, b in i.prods)
    r = "initial %s; %s" % (s(i.init), g)
    if i.tokens:
        r += " | tokens " + " ".join(map(s, i.tokens))
    ks = i.kv.get("consts", [])
    if i.kv.get("choices"):
        r += " | solver answers " + " ".join(str(ks.index(c)) if c in ks else "?" for c in i.kv["choices"])
    return r if len(r) < 1500 else r[:1500] + " ..."


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--stats", action="store_true", help="per-group statistics")
    ap.add_argument("--group", help="only task groups containing this text")
    a = ap.parse_args()
    t0 = time.time()
    try:
        bins, key = runner.build()
    except RuntimeError as e:
        print(e)
        return 2
    if a.build:
        return 0
    if a.replay:
        text = open(a.replay).read()
        prop = oracle.Inp(text).prop
        c, why, runs = confirm(bins, text, prop)
        print(describe(text))
        print(json.dumps(runs, indent=1))
        if c:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
        return 1 if c else 0
    prop, tier = a.prop, a.tier
    seed0 = int(os.environ.get("VERIF_SEED") or 1)
    tl = tasklib.tasks(prop, tier)
    if a.group:
        tl = [t for t in tl if a.group in t.group]
    for n, t in enumerate(tl):
        t.id = n
        t.seed = t.seed + 97 * (seed0 - 1)
        t.samples = 2 if tier == "quick" else 4
        t.every = 37 if n % 2 else 11
        t.smt = 1 if n % max(1, len(tl) // 12) == 0 else 0
    tot = collections.Counter()
    kinds = collections.Counter()
    groups = {}
    st = {"violation": None, "errors": [], "samples": [], "smt": [], "incomplete": [], "vacuous": []}

    def with_flags(t, text):
        return "flags %s\n%s" % (t.flags, text)

    def found(t, text, how):
        c, why, runs = confirm(bins, text, prop)
        if not c:
            if how == "does not return" and not why:
                # too slow to follow symbolically, but it does return
                st["incomplete"].append("too long a run: %s" % describe(text)[:200])
                return False
            st["errors"].append("counterexample does not reproduce (%s; %s): %s" % (how, why or "replay holds", describe(text)))
            return False
        st["violation"] = {"input": text, "how": how, "why": why, "runs": runs, "task": [t.grammar, t.tokens, t.flags]}
        return True

    def on_result(t, r):
        g = groups.setdefault(t.group, collections.Counter())
        if "crash" in r:
            if not r["input"]:
                st["errors"].append("worker ended (%s) before a path: %s / %s" % (r["crash"], t.grammar, t.tokens))
                return False
            return found(t, with_flags(t, r["input"]), "the run ended abnormally (%s)" % r["crash"])
        for k in ("paths", "decisions", "infeasible", "folded", "prop_queries", "queries", "z3_ms", "unknown", "defs", "eq_calls",
                  "lex_calls", "ms"):
            tot[k] += r[k]
            g[k] += r[k]
        g["tasks"] += 1
        tot["tasks"] += 1
        for k, v in r["kinds"].items():
            kinds[k] += v
        if r["vacuous"]:
            st["vacuous"].append(t.group)
            g["vacuous"] += 1
        if not r["done"] and not r["viol"] and r["error"] is None:
            st["incomplete"].append("%s / %s" % (t.grammar[:200], t.tokens[:80]))
            g["incomplete"] += 1
        for s in r["samples"]:
            st["samples"].append((t, with_flags(t, s)))
        for s in r["smt"]:
            st["smt"].append(s)
        for how, text in r["viol"]:
            if found(t, with_flags(t, text), how):
                return True
        if r["error"] and r["error"] != "hang":
            st["errors"].append("%s: %s / %s" % (r["error"], t.grammar[:200], t.tokens[:80]))
        return False

    deadline = t0 + LIMIT[tier]
    left = runner.run_tasks(bins["dev"], tl, deadline, on_result)
    for t in left:
        st["incomplete"].append("%s / %s" % (t.grammar[:200], t.tokens[:80]))

    # the encoding against the real code and an independent oracle, on sampled paths
    validated = 0
    if not st["violation"] and st["samples"]:
        want = 400 if tier == "quick" else 2500
        step = max(1, len(st["samples"]) // want)
        pick = st["samples"][::step][:want]
        for prof in ("dev", "release"):
            outs = runner.batch(bins[prof], [x for _, x in pick], "u32" if prof == "dev" else "marked", timeout=200)
            if len(outs) != len(pick):
                st["errors"].append("validation replay ended early (%s)" % prof)
            for (t, x), o in zip(pick, outs):
                inp = oracle.Inp(x)
                why = oracle.assumptions(inp)
                if why:
                    st["errors"].append("a model is outside the assumptions (%s): %s" % (why, describe(x)))
                    continue
                ok, r = oracle.judge(prop, inp, o)
                if not ok:
                    found(t, x, "replay of a path model") or st["errors"].append("oracle and solver disagree: " + describe(x))
                    break
                validated += 1
    second = {"queries": 0, "agree": 0, "solver": ""}
    if tier == "thorough" and not st["violation"]:
        second = second_solver(st["smt"])
        if second["agree"] != second["queries"]:
            st["errors"].append("a second solver disagrees: %s" % second)

    wall = time.time() - t0
    complete = not st["incomplete"] and tot["unknown"] == 0
    ev = {
        "property": prop, "tier": tier, "seed": seed0, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"],
            "traces_validated_against_impl": validated,
            "samples": [describe(x) for _, x in st["samples"][:: max(1, len(st["samples"]) // 6)][:6]],
            "exhaustive": bool(complete and not st["violation"]),
            "rule": "states = completed symbolic paths of the real code, transitions = recorded symbolic branches; "
                    "every path is one solver query over all symbol values that follow it",
            "tasks": tot["tasks"], "tasks_planned": len(tl), "incomplete_tasks": st["incomplete"][:20], "incomplete_count": len(st["incomplete"]),
            "vacuous_tasks": len(st["vacuous"]),
            "property_queries": tot["prop_queries"], "settled_by_folding": tot["folded"], "solver_queries": tot["queries"],
            "solver_seconds": round(tot["z3_ms"] / 1000, 2), "solver_unknown": tot["unknown"],
            "infeasible_branches": tot["infeasible"], "comparisons_executed": tot["eq_calls"], "lexeme_comparisons": tot["lex_calls"],
            "specification_definitions": tot["defs"], "path_outcomes": dict(kinds),
            "functions_encoded": tasklib.functions(prop), "bounds": tasklib.bounds(prop, tier),
            "groups": {k: {x: v[x] for x in ("tasks", "paths", "prop_queries", "z3_ms", "incomplete", "vacuous")} for k, v in groups.items()},
            "second_solver": second, "source_hash": key,
        },
        "assumptions": tasklib.assumptions(prop), "wall_s": round(wall, 2), "violations": 1 if st["violation"] else 0,
    }
    ev["coverage"]["errors"] = st["errors"][:10]
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    code = 0
    if st["violation"]:
        v = st["violation"]
        name = os.path.join(evdir, "replay-%s-%s.txt" % (prop, hashlib.sha256(v["input"].encode()).hexdigest()[:12]))
        with open(name, "w") as f:
            f.write(v["input"])
            f.write("# %s\n# %s\n# %s\n" % (describe(v["input"]).replace("\n", " "), v["how"], v["why"].replace("\n", " ")[:1500]))
            for r in v["runs"]:
                f.write("# %s\n" % json.dumps(r)[:1500])
        ev["coverage"]["violation"] = {"input": describe(v["input"]), "how": v["how"], "why": v["why"][:1500], "runs": v["runs"]}
        print("input: %s\nwhy: %s" % (describe(v["input"]), v["why"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, name))
        code = 1
    elif st["errors"]:
        for e in st["errors"][:10]:
            print("ERROR:", e)
        code = 2
    elif tot["paths"] == 0 or (tot["tasks"] and len(st["vacuous"]) == tot["tasks"]):
        print("ERROR: nothing was explored")
        code = 2
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.stats:
        for k, v in sorted(groups.items()):
            print("%-28s" % k, {x: v[x] for x in ("tasks", "paths", "decisions", "infeasible", "ms", "z3_ms", "unknown", "vacuous", "incomplete")})
    print("%s %s: %d tasks, %d paths, %d branches, %d property queries, %d solver queries (%.1f s z3), %d traces replayed, %s, %.1f s" % (
        prop, tier, tot["tasks"], tot["paths"], tot["decisions"], tot["prop_queries"], tot["queries"], tot["z3_ms"] / 1000, validated,
        "complete" if complete else "%d tasks incomplete, %d unknown" % (len(st["incomplete"]), tot["unknown"]), wall), dict(kinds))
    return code


def second_solver(dumps):
    """the sampled property queries again with cvc5"""
    import subprocess
    n = agree = 0
    for d in dumps[:60]:
        if len(d) > 3_000_000:
            continue
        text = "(set-logic QF_UF)\n" + d + "\n(check-sat)\n"
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=60000"], input=text, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=90)
        except Exception:
            continue
        out = p.stdout.strip().splitlines()
        if not out or out[-1] not in ("sat", "unsat"):
            continue
        n += 1
        agree += out[-1] == "unsat"
    return {"queries": n, "agree": agree, "solver": "cvc5"}


if __name__ == "__main__":
    sys.exit(main())
