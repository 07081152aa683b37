"""Checks on whole sessions: TLC builds circuits, assignments and call histories (SessionGen), the driver plays
them on the library, TLC validates the recording against Session (SessionTrace)."""
import collections, json
import props
from common import CheckError, THOROUGH, SEED


def play(c, plans, extra=()):
    """plans: (focus, mode, ranks, field, count); extra: more scenarios.  Returns (deviations, stats)."""
    devs, ops, outcomes = [], collections.Counter(), collections.Counter()
    all_scen, meta = list(extra), []
    for focus, mode, ranks, field, count in plans:
        for s in c.generate("SessionGen", count, env={"FOCUS": focus, "MODE": mode, "RANKS": ranks, "FIELD": field}):
            all_scen.append(s)
    for i, s in enumerate(all_scen):
        s["id"] = i + 1
    recs = c.drive("session", all_scen)
    devs = c.validate("SessionTrace", recs, lambda r: len(r["ev"]))
    byid = {s["id"]: s for s in all_scen}
    for r in recs:
        for e in r["ev"]:
            ops[e["op"]] += 1
            outcomes[e["op"] + ":" + (e["res"] if e["op"] != "verify" or e["res"] != "ok" else str(e["acc"]).lower())] += 1
    return devs, byid, recs, outcomes


def describe(d):
    e = d["ev"]
    got = e["res"] if e["op"] != "verify" or e["res"] != "ok" else ("accepted" if e["acc"] else "rejected")
    return "session %d call %d: %s %s where the specification does not allow it (%s %s)%s" % (
        d["id"], d["at"], e["op"], got, d["why"]["class"], ",".join(sorted(d["why"]["kinds"])), (": " + e["what"][:200]) if e["what"] else "")


def report(c, devs, byid, select):
    for d in devs:
        if select(d):
            c.violate(describe(d), {"deviation": d, "scenario": byid[d["id"]]})


def coverage(c, recs, outcomes, devs, rule):
    shapes = set(json.dumps([r["circs"], [e["op"] for e in r["ev"]]], sort_keys=True) for r in recs)
    ex = recs[0]
    kinds = collections.Counter(k["t"] for r in recs for k in r["circs"][0]["cons"])
    return {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
            "distinct_sessions": len(shapes), "calls": dict(outcomes), "constraints": dict(kinds),
            "deviations_seen": len(devs), "rule": rule,
            "samples": [{"field": ex["field"], "circuit": ex["circs"][0], "assignment": ex["asgs"][0],
                         "calls": [{k: e[k] for k in ("op", "pair", "asg", "pf", "res", "acc")} for e in ex["ev"]][:12]}]}


RULE = ("circuits, assignments, their violating variants and call histories are behaviours of SessionGen drawn by TLC; every "
        "recorded call of the library is checked by TLC to be a step of Session with the recorded result")


def plan_check(prop, plans, select, level="model_checking"):
    @props.check(prop, level)
    def run(c):
        devs, byid, recs, outcomes = play(c, plans())
        report(c, devs, byid, select)
        if outcomes["verify:true"] == 0 and not devs:
            raise CheckError("no proof was accepted")
        return coverage(c, recs, outcomes, devs, RULE)
    return run


def n(q, t):
    return t if THOROUGH else q


cls = lambda d: d["why"]["class"]
kinds = lambda d: set(d["why"]["kinds"])

plan_check("C01", lambda: [("mix", "straight", "small", "every", n(50, 1500)), ("mix", "single", "all", "all", n(90, 1500)),
                           ("secretfree", "straight", "small", "all", n(25, 400)), ("inf", "single", "mid", "every", n(20, 300)),
                           ("many", "single", "small", "all", n(16, 300))],
           lambda d: cls(d) == "incomplete")
plan_check("C02", lambda: [("arith", "straight", "small", "all", n(120, 2500)), ("mix", "straight", "small", "all", n(50, 1000)),
                           ("secretfree", "straight", "small", "all", n(25, 400)), ("many", "straight", "small", "all", n(8, 200))],
           lambda d: cls(d) == "unsound" and "arith" in kinds(d))
plan_check("C03", lambda: [("lin", "straight", "small", "all", n(120, 2500)), ("mix", "straight", "small", "all", n(40, 1000)),
                           ("linonly", "straight", "small", "every", n(60, 1000)), ("many", "straight", "small", "all", n(8, 200))],
           lambda d: (cls(d) in ("unsound", "incomplete")) and "lin" in kinds(d))
@props.check("C04")
def c04(c):
    devs, byid, recs, outcomes = play(c, [("sum", "straight", "small", "all", n(120, 2500)), ("mix", "straight", "small", "all", n(40, 1000)),
                                          ("sumonly", "straight", "small", "every", n(60, 1000))], norm(c, "sum"))
    report(c, devs, byid, lambda d: (cls(d) in ("unsound", "incomplete", "binding")) and "sum" in kinds(d))
    return coverage(c, recs, outcomes, devs, RULE + "; declared sums at machine word sizes and up to the size of the field (NormGen)")


plan_check("C08", lambda: [("mix", "binding", "small", "all", n(120, 2000)), ("arith", "binding", "small", "every", n(40, 800)),
                           ("secretfree", "binding", "small", "all", n(20, 300)), ("mix", "straight", "small", "all", n(30, 500))],
           lambda d: cls(d) == "binding")
plan_check("C11", lambda: [("mix", "malformed", "small", "all", n(120, 2000)), ("arith", "malformed", "eight", "every", n(40, 500))],
           lambda d: cls(d) == "malformed" or (cls(d) == "incomplete" and d["at"] > 3))


@props.check("C12")
def c12(c):
    devs, byid, recs, outcomes = play(c, [("mix", "history", "small", "all", n(60, 1200)), ("two", "history", "small", "all", n(20, 300)),
                                          ("lin", "history", "small", "all", n(20, 300)), ("mix", "straight", "small", "every", n(20, 300))])
    based = {d["id"] for d in devs if d["ev"]["base"] and cls(d) != "mutated"}
    hist = {r["id"] for r in recs if r["ev"][0]["base"]}
    mine = lambda d: cls(d) == "mutated" or (d["id"] in hist and d["id"] not in based)
    report(c, devs, byid, mine)
    # What other sessions of the same process have done is no concern of a session either: of the deviations that no
    # history of the session itself explains, see if they remain when the session is played in a process of its own.
    rest = sorted({d["id"] for d in devs if not mine(d)})[:n(8, 40)]
    if rest and not any(mine(d) for d in devs):
        alone = [r for i in rest for r in c.drive("session", [byid[i]])]
        still = {(d["id"], d["at"]) for d in c.validate("SessionTrace", alone, lambda r: len(r["ev"]))}
        report(c, [d for d in devs if d["id"] in rest and (d["id"], d["at"]) not in still], byid, lambda d: True)
    return coverage(c, recs, outcomes, devs, RULE + "; in a history session every assignment is first judged on a pair of its own")


RULE_NORM = ("one session per bound: every bound from 0 to SMALL, 2^e-1, 2^e, 2^e+1 for a selection of e up to the size of the field (quick: four, thorough: every STEP-th), and "
             "half the field; vectors at, just above and far above the bound on both sides, also among further constraints (NormGen); " + RULE)


def norm(c, kind):
    lean = "no" if THOROUGH else "yes"
    out = c.enumerate("NormGen", env={"KIND": kind, "SMALL": n(18, 130), "STEP": n(1, 7), "FIELD": "zp127", "LEAN": lean})
    return out + c.enumerate("NormGen", env={"KIND": kind, "SMALL": n(3, 20), "STEP": n(1, 61), "FIELD": "every", "LEAN": lean})


@props.check("C05")
def c05(c):
    devs, byid, recs, outcomes = play(c, [("inf", "straight", "small", "all", n(25, 800))], norm(c, "inf"))
    report(c, devs, byid, lambda d: cls(d) in ("unsound", "incomplete", "binding") and "inf" in kinds(d))
    return coverage(c, recs, outcomes, devs, RULE_NORM)


@props.check("C06")
def c06(c):
    devs, byid, recs, outcomes = play(c, [("two", "straight", "small", "all", n(25, 800))], norm(c, "two"))
    report(c, devs, byid, lambda d: cls(d) in ("unsound", "incomplete", "binding") and "two" in kinds(d))
    return coverage(c, recs, outcomes, devs, RULE_NORM)


@props.check("C07")
def c07(c):
    extra = c.enumerate("ApproxGen", env={"MODE": "apart", "COUNT": n(14, 120), "FIELD": "every" if THOROUGH else "zp127", "BIG": n("no", "yes")})
    devs, byid, recs, outcomes = play(c, [], extra)
    report(c, devs, byid, lambda d: cls(d) in ("unsound", "incomplete") and "approx" in kinds(d))
    cov = coverage(c, recs, outcomes, devs, "sessions with approximate constraints alone and with others; vectors inside the bound and with "
                   "entries above 4 * rank * bound (ApproxGen); " + RULE)
    cov["samples"] = [{"field": r["field"], "rank": r["circs"][0]["n"], "constraints": r["circs"][0]["cons"],
                       "calls": [{k: e[k] for k in ("op", "asg", "pf", "res", "acc")} for e in r["ev"]]} for r in recs[:2]]
    return cov
