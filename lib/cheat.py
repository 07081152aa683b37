"""C24: provers that do not follow the library."""
import collections
import props
from common import CheckError, THOROUGH
from proofs import jsonl


def n(q, t):
    return t if THOROUGH else q


def statements(c, plans, keep):
    """Circuits of arithmetic, linear and sum constraints with assignments, most of which break them."""
    out = []
    for focus, ranks, field, count in plans:
        for s in c.generate("SessionGen", count, env={"FOCUS": focus, "MODE": "straight", "RANKS": ranks, "FIELD": field})[:count]:
            circ, asgs = s["circs"][0], [dict(a) for a in s["asgs"]]
            if {k["t"] for k in circ["cons"]} <= {"arith", "lin", "sum"} and circ["n"] > 1:
                # the own prover takes the vectors in order, in any layout
                out.append({"field": s["field"], "circ": circ, "asgs": asgs[:keep]})
    for i, t in enumerate(out):
        t["id"] = i + 1
    return out


@props.check("C24")
def c24(c):
    ts = statements(c, [("linonly", "small", "all", n(14, 300)), ("linonly", "rank16", "zp127", n(4, 40)), ("sumonly", "small", "all", n(12, 300)), ("arith", "small", "all", n(8, 200)),
                        ("linsum", "small", "all", n(14, 300)), ("sum", "small", "all", n(6, 150)), ("lin", "mid", "every", n(3, 60))], n(3, 8))
    plans = {k["t"]: k["deceit"] for k in c.enumerate("CheatGen", env={"KIND": "deceit", "COUNT": 1, "GIVEN": jsonl(c, ts)})}
    lines = [dict(t, deceit=plans.get(t["id"], [])) for t in ts]
    recs = c.drive("cheat", lines)
    lies = []
    for kind, count in (("inf", n(10, 200)), ("two", n(8, 150)), ("approx", n(3, 40)), ("mask", n(12, 200))):
        for k in c.enumerate("CheatGen", env={"KIND": kind, "COUNT": count, "GIVEN": "none"}):
            lies.append(k)
    for i, k in enumerate(lies):
        k["id"] = len(ts) + i + 1
    lrecs = c.drive("liar", lies, split=8)
    devs = c.validate("CheatTrace", recs + lrecs, lambda r: len(r["cases"]))
    byid = {t["id"]: t for t in lines + lies}
    for d in devs:
        k = d["case"]
        what = ("a prover of its own, discrepancy of the %s check put into %s %s" % (k["w"], k["place"], k["part"] + (" (kept out of the challenges)" if k["keep"] else "")) if "place" in k else "the library's prover, lied to: " + k["kind"])
        t = byid[d["id"]]
        c.violate("field %s: %s: %s although %s is broken" % (d["field"], what, "panic" if k["pan"] else "accepted", ",".join(sorted(d["broken"]))),
                  {"deviation": d, "target": {x: y for x, y in t.items() if x not in ("deceit", "lies")}})
    honest = [ok for r in recs for ok in r["honest"]]
    put = collections.Counter((k["w"] + " " + k["place"] + " " + k["part"] + (" unbound" if k["keep"] else "")).strip() for r in recs for k in r["cases"] if k["ok"])
    told = collections.Counter(k["kind"] + ("" if k["taken"] else " (not taken)") for r in lrecs for k in r["cases"] if k["made"])
    return {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
            "own_prover_accepted_on_true_statements": sum(honest), "deceits_put_together": dict(put),
            "deceits_impossible": sum(not k["ok"] for r in recs for k in r["cases"]), "lies_told": dict(told),
            "rule": "CheatGen puts the discrepancy of every false statement wherever the verification equations have room, and draws digits, projections and mask sums for false "
                    "statements; a prover written from the protocol and the library's own prover over a lying field make the proofs; CheatTrace never allows an acceptance",
            "samples": [{"field": r["field"], "circuit": r["circ"], "assignment": r["asgs"][r["cases"][0]["a"] - 1], "case": r["cases"][0]} for r in (recs + lrecs) if r["cases"]][:2]
                       + [{"field": r["field"], "circuit": r["circ"]["cons"], "case": r["cases"][0]} for r in lrecs[:1]]}
