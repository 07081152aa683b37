"""Checks on derived parameters and on the sampler."""
import collections
import props
from common import CheckError, THOROUGH, SEED


def n(q, t):
    return t if THOROUGH else q


@props.check("C25")
def c25(c):
    cases = c.enumerate("ParamsGen", env={"COUNT": n(1500, 30000), "USE": "no", "MAXUSE": 1})
    cases += c.enumerate("ParamsGen", env={"COUNT": n(160, 1500), "USE": "yes", "MAXUSE": n(1200, 20000)})
    for i, k in enumerate(cases):
        k["id"] = i + 1
    recs = c.drive("params", cases)
    devs = c.validate("ParamsTrace", recs, lambda r: 1)
    for d in devs:
        c.violate("field %s, capacity %d, batch %d: %s" % (d["field"], d["target"], d["batch"], ",".join(sorted(d["why"]))), {"deviation": d, "record": recs[d["id"] - 1]})
    used = [r for r in recs if r["use"]]
    if not c.violations and not all(r["acc"] for r in used):
        raise CheckError("an opening was not accepted")
    return {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces, "configurations": len(set((r["field"], r["target"], r["batch"]) for r in recs)),
            "committed_opened_verified": len(used), "fields": dict(collections.Counter(r["field"] for r in recs)),
            "layouts": len(set((r["field"], r["rows"], r["cols"], r["in"], r["out"]) for r in recs)),
            "largest_capacity": max(r["target"] for r in recs),
            "rule": "ParamsGen draws fields, capacities (around layout edges and powers of two, up to 10^8) and batch sizes; ParamsTrace checks each derivation against Params: "
                    "layout arithmetic, base^exp + 1 = p in limb arithmetic, prime moduli, decomposition length, the MSIS estimate for the published norm bounds, MLWE dimensions; and "
                    "a full-length commitment, opening, verification and refused false value for the smaller ones",
            "samples": [{k: r[k] for k in ("field", "target", "batch", "rank", "rows", "cols", "in", "out", "res", "comn")} for r in recs[:3]]}


@props.check("C23")
def c23(c):
    cases = c.enumerate("SamplerGen", env={"COUNT": n(90, 1500), "KEYS": "no"}) + c.enumerate("SamplerGen", env={"COUNT": n(16, 120), "KEYS": "yes"})
    for i, k in enumerate(cases):
        k["id"] = i + 1
    recs = c.drive("sampler", cases)
    devs = c.validate("SamplerTrace", recs, lambda r: len(r["ev"]))
    for d in devs:
        c.violate("history %d, call %d (%s): %s" % (d["id"], d["at"], d["op"], ",".join(sorted(d["why"]))), {"deviation": d, "history": cases[d["id"] - 1]})
    return {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
            "calls": dict(collections.Counter(e["op"] for r in recs for e in r["ev"])), "seeds": sum(len(r["seeds"]) for r in recs),
            "bytes_compared": sum(len(e["hex"]) // 2 for r in recs for e in r["ev"]), "key_polynomials": sum(len(e["parts"]) for r in recs for e in r["ev"]),
            "rule": "SamplerGen draws families of seeds that resemble each other (one byte changed, added, dropped, zero, reversed, prefixes of every length around block sizes) and histories "
                    "of calls on samplers made from them; SamplerTrace requires every delivery to be the same function of seed and calls, every window of eight bytes to be delivered once, "
                    "ranges, even spread over residue classes, and keys to be functions of CRS and parameters",
            "samples": [{"seeds": r["seeds"][:3], "calls": [[e["op"], e["s"], e["n"]] for e in r["ev"]][:20]} for r in recs[:2]]}


@props.check("C27")
def c27(c):
    cases = c.enumerate("FieldGen", env={"COUNT": n(240, 3000), "LENGTH": 40})
    recs = []
    for tags in ("", "purego"):
        part = [dict(k, id=len(recs) + i + 1) for i, k in enumerate(cases[len(cases) // 2:] if tags else cases)]
        recs += [dict(r, field=r["field"] + (" " + tags if tags else "")) for r in c.drive("field", part, tags=tags)]
    devs = c.validate("FieldTrace", recs, lambda r: len(r["ev"]))
    for d in devs:
        c.violate("field %s: %s: %s" % (d["field"], d["op"], ",".join(sorted(d["why"]))), {"deviation": d, "event": recs[d["id"] - 1]["ev"][d["at"] - 1], "before": recs[d["id"] - 1]["ev"][max(0, d["at"] - 2)]["regs"]})
    return {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
            "operations": dict(collections.Counter(e["op"] for r in recs for e in r["ev"])), "fields": dict(collections.Counter(r["field"] for r in recs)),
            "onto_an_operand": sum(e["d"] in (e["a"], e["b"]) for r in recs for e in r["ev"]),
            "rule": "FieldGen draws programs of all operations of the field interface on four registers, destinations often operands, numbers entering near multiples of the modulus, powers of "
                    "two and word sizes; FieldTrace checks every result in the integers (limb arithmetic with the recorded quotients), for the assembly and the portable build",
            "samples": [{"field": r["field"], "operations": [[e["op"], e["d"], e["a"], e["b"]] for e in r["ev"]][:15]} for r in recs[:2]]}


@props.check("C26", "exploration")
def c26(c):
    cases = c.enumerate("GaussGen", env={"COUNT": n(150, 1500), "POWER": 11})
    for i, k in enumerate(cases):
        k["id"] = i + 1
    recs = c.drive("gauss", cases, split=8)
    devs = c.validate("GaussTrace", recs, lambda r: 1)
    for d in devs:
        r = recs[d["id"] - 1]
        c.violate("%s (%s), centre %d + %d/%d, deviation %s: %s" % (d["kind"], d["scale"], r["a"], r["k"], r["kk"], dev(r), ",".join(sorted(d["why"]))), {"deviation": d, "record": r})
    return {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
            "samples_counted": sum(4 ** r["h"] for r in recs), "buckets": sum(len(r["cnt"]) for r in recs),
            "kinds": dict(collections.Counter(r["kind"] + " " + r["scale"] for r in recs)),
            "rule": "GaussGen draws samplers, centres (fractions on and off the table grid, behind the last table; integer parts to 2^30) and deviations (1 to 2^44); 4^11 samples each are "
                    "counted in buckets, and GaussTrace compares the counts to the mass of the distribution, computed in fixed point of 72 bits by the specification",
            "samples": [{k: r[k] for k in ("kind", "scale", "a", "k", "kk", "d1", "d2", "lo", "hi", "cnt", "pairs")} for r in recs[:2]]}


def dev(r):
    s = (r["d1"] * r["d2"] / 2) ** 0.5
    return "%.3f" % (s / r["kk"] if r["scale"] == "small" and r["kind"] != "rounded" else s / 2 / r["kk"] if r["scale"] == "small" else s * 2 ** (r["x"] - 4))
