"""Checks on the ring layer and the samplers."""
import collections
import props
from common import CheckError, THOROUGH, SEED


def n(q, t):
    return t if THOROUGH else q


def ring_play(c, plans):
    progs = []
    for kind, alias, count, length, maxn in plans:
        progs += c.enumerate("RingGen", env={"KIND": kind, "ALIAS": alias, "COUNT": count, "LENGTH": length, "MAXN": maxn})
    for i, p in enumerate(progs):
        p["id"] = i + 1
    recs = c.drive("ring", progs)
    devs = c.validate("RingTrace", recs, lambda r: len(r["prog"]))
    real = [d for d in devs if "undefined" not in d["why"]]
    if devs and not real:
        raise CheckError("a generated program is not defined: %s" % devs[0])
    return real, {p["id"]: p for p in progs}, recs


def ring_report(c, devs, byid, select):
    for d in devs:
        if select(d):
            c.violate("program %d over rank %d, field %s, operation %d (%s d=%d a=%d b=%d k=%d): %s differs from the specification" % (
                d["id"], d["n"], d["field"], d["at"], d["op"], d["d"], d["a"], d["b"], d["k"], ",".join(sorted(d["why"]))),
                {"deviation": d, "program": byid[d["id"]]})


def ring_cov(c, recs):
    ops = collections.Counter(o["op"] for r in recs for o in r["prog"])
    ranks = collections.Counter("%s/%d/%s" % (r["ring"], r["n"], r["field"]) for r in recs)
    return {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces, "operations": dict(ops),
            "rings": len(ranks), "rule": "register programs from RingGen; TLC recomputes each operation in Z_p[X]/(X^n -+ 1) from the recorded "
            "registers before it (toy fields: modulo p; library fields: integers) and compares all registers after it",
            "samples": [{"ring": r["ring"], "rank": r["n"], "field": r["field"],
                         "program": [{k: o[k] for k in ("op", "d", "a", "b", "c", "k")} for o in r["prog"]]} for r in recs[:2]]}


def ring_check(prop, plans, select):
    @props.check(prop)
    def run(c):
        devs, byid, recs = ring_play(c, plans())
        ring_report(c, devs, byid, select)
        return ring_cov(c, recs)
    return run


bad = lambda d: bool({"result", "panic"} & set(d["why"]))
ring_check("C19", lambda: [("all", "no", n(200, 3000), 24, 128), ("all", "no", n(45, 400), 12, 512)],
           lambda d: d["group"] == "ring" and bad(d))
ring_check("C22", lambda: [("all", "yes", n(240, 3000), 30, 64)],
           lambda d: bool({"frame", "alias"} & set(d["why"])))


def map_play(c, kind, count):
    cases = c.enumerate("MapGen", env={"KIND": kind, "COUNT": count})
    recs = c.drive("map", cases)
    return c.validate("MapTrace", recs, lambda r: 1), {r["id"]: r for r in recs}, recs


def map_report(c, devs, byid):
    for d in devs:
        c.violate("%s over rank %d, field %s (index %d, modulus %d): %s differs from the specification" % (
            d["kind"], d["n"], d["field"], d["k"], d["q"], ",".join(sorted(d["why"]))), {"deviation": d, "case": byid[d["id"]]})


def both(prop, kind, group, count, progs):
    @props.check(prop)
    def run(c):
        devs, byid, recs = ring_play(c, progs())
        ring_report(c, devs, byid, lambda d: d["group"] == group and bad(d))
        mdevs, mbyid, mrecs = map_play(c, kind, count)
        map_report(c, mdevs, mbyid)
        cov = ring_cov(c, recs)
        cov["single_applications"] = dict(collections.Counter(r["kind"] for r in mrecs))
        cov["rule"] += "; single applications from MapGen checked by MapTrace (adjointness, linearity, products, rounding, values)"
        return cov


both("C20", "maps", "aut", n(150, 3000), lambda: [("aut", "no", n(60, 1000), 20, 128), ("aut", "yes", n(60, 1000), 20, 32)])
both("C21", "nums", "quo", n(240, 4000), lambda: [("quo", "no", n(80, 1200), 20, 128), ("quo", "yes", n(30, 500), 20, 32)])
