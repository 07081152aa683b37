"""Checks on proofs as data: alterations, transcripts, blinding."""
import collections, json, os
import props
from common import CheckError, THOROUGH, SEED


def n(q, t):
    return t if THOROUGH else q


def circuit_targets(c, plans):
    """Circuits with an assignment that satisfies them, from SessionGen: plans are (focus, ranks, field, count)."""
    out = []
    for focus, ranks, field, count in plans:
        for s in c.generate("SessionGen", count, env={"FOCUS": focus, "MODE": "single", "RANKS": ranks, "FIELD": field})[:count]:
            out.append({"kind": "circuit", "field": s["field"], "circ": s["circs"][0], "asg": s["asgs"][0], "cap": 0, "lens": []})
    return out


def pcs_target(field, cap, lens):
    return {"kind": "pcs", "field": field, "cap": cap, "lens": lens}


def tamper(c, targets, places, seqs):
    for i, t in enumerate(targets):
        t["id"] = i + 1
    shapes = [s for s in c.drive("shape", targets) if s["ok"]]
    if not shapes:
        raise CheckError("no proof could be made")
    path = os.path.join(c.work, "shapes%d.ndjson" % len(os.listdir(c.work)))
    with open(path, "w") as f:
        for s in shapes:
            f.write(json.dumps(s) + "\n")
    cases = c.enumerate("TamperGen", env={"SHAPES": path, "PLACES": places, "SEQS": seqs})
    bytarget = collections.defaultdict(list)
    for k in cases:
        bytarget[k["t"]].append(k["ops"])
    lines, per = [], n(60, 400)
    for t in targets:
        ks = bytarget[t["id"]]
        for j in range(0, len(ks), per):
            lines.append(dict(t, id=len(lines) + 1, cases=ks[j:j + per]))
    recs = c.drive("tamper", lines)
    live = [r for r in recs if r["cases"]]
    devs = c.validate("TamperTrace", live, lambda r: sum(len(k["ops"]) + 1 for k in r["cases"]) - 1)
    c.traces += sum(len(r["cases"]) for r in live) - len(live)
    return devs, {l["id"]: l for l in lines}, live


def tamper_report(c, devs, byid, select):
    for d in devs:
        if select(d):
            t = byid[d["id"]]
            c.violate("%s, field %s: %s of %s: %s where the specification does not allow it" % (
                d["kind"], d["field"], d["op"]["o"], d["on"], "panic" if d["res"]["pan"] else "accepted" if d["res"]["acc"] else "rejected"),
                {"deviation": d, "target": {k: v for k, v in t.items() if k != "cases"}})


def tamper_cov(c, recs, rule):
    kinds = collections.Counter(o["o"] + ("" if o["o"] in ("all",) else " " + (r["comps"][o["a"] - 1]["g"] if o["o"] in ("bump", "swap", "graft", "poly") else o["g"]))
                                for r in recs for k in r["cases"] for o in k["ops"])
    outcomes = collections.Counter("panic" if v["pan"] else "accepted" if v["acc"] else "rejected" for r in recs for k in r["cases"] for v in k["res"])
    if outcomes["accepted"] == 0 and not c.violations:
        raise CheckError("no honest artefact was accepted")
    return {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces, "alterations": dict(kinds), "verdicts": dict(outcomes),
            "artefact_components": sorted(len(r["comps"]) for r in recs)[-1], "rule": rule,
            "samples": [{"kind": r["kind"], "field": r["field"], "case": r["cases"][len(r["cases"]) // 2]} for r in (recs[0], recs[-1])]}


@props.check("C09")
def c09(c):
    ts = circuit_targets(c, [("mix", "small", "zp127", n(2, 20)), ("mix", "small", "every", n(1, 20)), ("linonly", "small", "all", n(2, 10)),
                             ("arith", "small", "all", n(1, 5))])
    devs, byid, recs = tamper(c, ts, n(1, 8), n(30, 300))
    tamper_report(c, devs, byid, lambda d: True)
    return tamper_cov(c, recs, "TamperGen enumerates every single alteration of every component of proofs of TLC-drawn circuits (values, swaps, grafts from two other "
                      "honest proofs, missing, surplus and wrongly sized parts) and draws sequences; TamperTrace checks each verdict")


def pcs_targets():
    out = [pcs_target("zp127", 64, [64]), pcs_target("zp110", 40, [40, 0, 7]), pcs_target("zp220", 2000, [1500, 2000]), pcs_target("zp127", 3000, [2900])]
    if THOROUGH:
        out += [pcs_target("zp440", 100, [100]), pcs_target("zp880", 60, [60, 60]), pcs_target("zp240", 5000, [5000, 1, 4999, 5000]), pcs_target("zp127", 9000, [9000])]
    return out


def pcs_play(c, count, maxcap):
    cases = c.enumerate("PcsGen", env={"COUNT": count, "MAXCAP": maxcap, "MODE": "apart"})
    recs = c.drive("pcs", cases)
    devs = c.validate("PcsTrace", recs, lambda r: len(r["ev"]))
    byid = {x["id"]: x for x in cases}
    return devs, byid, recs


def pcs_report(c, devs, byid, select):
    for d in devs:
        if select(d):
            c.violate("history %d, field %s, capacity %d, batch %d, lengths %s: call %d (%s): %s" % (
                d["id"], d["field"], d["cap"], d["batch"], d["lens"], d["at"], d["op"], ",".join(d["why"])), {"deviation": d, "history": byid[d["id"]]})


def pcs_cov(c, recs, rule):
    if not any(e["acc"] for r in recs for e in r["ev"]) and not c.violations:
        raise CheckError("no opening was accepted")
    return {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
            "calls": dict(collections.Counter(e["op"] + (":%s" % e["acc"] if e["op"] == "verify" else "") for r in recs for e in r["ev"])),
            "configurations": len(set((r["field"], r["cap"], r["batch"]) for r in recs)), "rule": rule,
            "samples": [{"field": r["field"], "cap": r["cap"], "batch": r["batch"], "lens": [len(p) for p in r["polys"]],
                         "calls": [[e["op"], e["coms"], e["x"], e["acc"]] for e in r["ev"]][:16]} for r in recs[:2]]}


@props.check("C14")
def c14(c):
    devs, byid, recs = pcs_play(c, n(350, 4000), n(2500, 12000))
    pcs_report(c, devs, byid, lambda d: set(d["why"]) & {"panic", "mutated", "value", "rejected"})
    return pcs_cov(c, recs, "histories of commitments and openings drawn by TLC (PcsGen); PcsTrace computes every claimed value from the coefficients and every verdict")


def jsonl(c, recs):
    path = os.path.join(c.work, "in%d.ndjson" % len(os.listdir(c.work)))
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    return path


def approx_target(c, count):
    """Circuits with an approximate norm, which use the projection challenge."""
    out = []
    for s in c.enumerate("ApproxGen", env={"MODE": "apart", "COUNT": 4 * count, "FIELD": "zp127", "BIG": "no"}):
        if any(k["t"] == "approx" and k["b"] > 0 for k in s["circs"][0]["cons"]):
            out.append({"kind": "circuit", "field": s["field"], "circ": s["circs"][0], "asg": s["asgs"][0], "cap": 0, "lens": [], "light": True})
    return out[:count]


@props.check("C10")
def c10(c):
    ts = circuit_targets(c, [("mix", "eight", "zp127", n(3, 20)), ("mix", "small", "every", n(4, 60)), ("linonly", "small", "all", n(2, 20)),
                             ("sumonly", "small", "all", n(2, 20)), ("arith", "small", "all", n(2, 20)), ("two", "small", "all", n(2, 20))])
    ts += approx_target(c, n(1, 6))
    ts += [pcs_target("zp127", 64, [64]), pcs_target("zp110", 300, [300, 1, 2]), pcs_target("zp220", 3000, [9]), pcs_target("zp880", 500, [3, 3]),
           pcs_target("zp440", 900, [1, 1, 1, 1]), pcs_target("zp240", 40, [7, 7]), pcs_target("zp127", 6000, [3, 4])]
    for i, t in enumerate(ts):
        t["id"] = i + 1
    circ = [t for t in ts if t["kind"] == "circuit"]
    shape = {s["id"]: s for s in c.drive("shape", circ) if s["ok"]}
    live = [t for t in ts if t["kind"] == "pcs" or t["id"] in shape]
    if not any(t["kind"] == "circuit" for t in live):
        raise CheckError("no proof could be made")
    heads = []
    for t in live:
        s = shape.get(t["id"], {"comps": [], "n": 1})
        heads.append({"id": t["id"], "kind": t["kind"], "comps": s["comps"], "rank": s["n"], "n": t["circ"]["n"] if "circ" in t else 0,
                      "np": t["circ"]["np"] if "circ" in t else 0, "lens": t["lens"], "light": t.get("light", False)})
    cases = c.enumerate("TranscriptGen", env={"SHAPES": jsonl(c, heads), "PLACES": n(1, 6)})
    by = collections.defaultdict(list)
    for k in cases:
        by[k["t"]].append(k["c"])
    lines = [dict(t, tcases=by[t["id"]]) for t in live]
    recs = c.drive("transcript", lines)
    for r in recs:
        if r["kind"] == "circuit":
            r["circ"] = {"nw": r["circ"]["nw"], "cons": [{"t": k["t"]} for k in r["circ"]["cons"]]}
    devs = c.validate("TranscriptTrace", recs, lambda r: len(r["cases"]) + 1)
    byid = {l["id"]: l for l in lines}
    for d in devs:
        c.violate("%s, field %s: %s %s: %s" % (d["kind"], d["field"], d["case"], d["on"], ", ".join(sorted(d["why"]))),
                  {"deviation": d, "target": {k: v for k, v in byid[d["id"]].items() if k not in ("tcases",)}})
    if not any(r["ok"] and r["base"][0] for r in recs) and not devs:
        raise CheckError("nothing was accepted")
    return {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces, "proofs": len(recs),
            "alterations": dict(collections.Counter(k["k"] for r in recs for k in r["cases"])),
            "challenges": dict(collections.Counter(m for r in recs if r["chal"] for m, v in zip(r["names"], r["chal"][0]) if v)),
            "rule": "TranscriptGen enumerates alterations of every message and of bytes of every challenge; the challenges the real verifier (circuit proofs) or "
                    "prover (openings) derives are recorded; TranscriptTrace requires those that come later to change",
            "samples": [{"kind": r["kind"], "field": r["field"], "case": r["cases"][0]["k"], "challenges": dict(zip(r["names"], r["chal"][0])),
                         "after": r["cases"][0]["cls"]} for r in recs if r["cases"] and r["chal"]][:3]}


def forge(c, targets, kind, places):
    for i, t in enumerate(targets):
        t["id"] = i + 1
    recs = c.drive("forge", [dict(t, forge=[]) for t in targets])
    heads = [{k: r[k] for k in ("id", "lens", "cols", "rows", "exp", "slots", "limbs", "in", "out", "mlwe", "n")} for r in recs]
    cases = c.enumerate("ForgeGen", env={"SHAPES": jsonl(c, heads), "PLACES": places, "KIND": kind})
    by = collections.defaultdict(list)
    for k in cases:
        by[k["t"]].append(k["k"])
    lines, per = [], n(12, 60)
    for t in targets:
        ks = by[t["id"]]
        for j in range(0, len(ks), per):
            lines.append(dict(t, id=len(lines) + 1, forge=ks[j:j + per]))
    recs = c.drive("forge", lines)
    devs = c.validate("ForgeTrace", recs, lambda r: len(r["cases"]))
    byid = {l["id"]: l for l in lines}
    for d in devs:
        k = d["case"]
        c.violate("field %s, capacity %d, lengths %s: %s source, chain %s%s, norms %d and %d thousandths of their bounds: %s" % (
            d["field"], d["cap"], d["lens"], k["form"], d["chain"], " (%s)" % k["mix"] if k["mix"] else "", k["res"], k["dcmp"],
            "panic" if k["pan"] else "accepted" if k["acc"] else "rejected"), {"deviation": d, "target": {a: b for a, b in byid[d["id"]].items() if a != "forge"}})
    return recs


def forge_cov(recs):
    cs = [k for r in recs for k in r["cases"] if r["ok"] and k["ok"]]
    return {"openings_put_together": len(cs), "not_applicable_here": sum(len(r["cases"]) for r in recs) - len(cs),
            "forms": dict(collections.Counter(k["form"] + (" " + k["mix"] if k["mix"] else "") + (": accepted" if k["acc"] else ": rejected") for k in cs)),
            "norms_near_bound": sum(1 for k in cs if 900 < k["res"] < 1100 or 900 < k["dcmp"] < 1100)}


def forge_targets():
    out = [pcs_target("zp127", 64, [64]), pcs_target("zp110", 300, [300, 1]), pcs_target("zp220", 3000, [2900]), pcs_target("zp880", 40, [40, 40, 3])]
    if THOROUGH:
        out += [pcs_target("zp440", 900, [800, 7]), pcs_target("zp240", 3000, [3000, 20]), pcs_target("zp127", 9000, [8999]), pcs_target("zp127", 32, [32, 32, 32, 32, 32])]
    return out


@props.check("C16")
def c16(c):
    ts = forge_targets() + [pcs_target("zp440", 200, [200, 100]), pcs_target("zp240", 500, [500])]
    recs = forge(c, ts, "norm", n(24, 240))
    cov = forge_cov(recs)
    cov.update({"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
                "rule": "ForgeGen draws openings whose equations all hold with norms around and beyond the bounds, in every part the norms cover; the driver builds them "
                        "with the commitment key and measures both norms over the integers; ForgeTrace decides each verdict from the measured norms",
                "samples": [k for r in recs[:40:8] for k in r["cases"][:1]]})
    return cov


@props.check("C15")
def c15(c):
    hd, hb, hr = pcs_play(c, n(120, 1500), n(1500, 8000))
    pcs_report(c, hd, hb, lambda d: set(d["why"]) & {"panic", "accepted"})
    devs, byid, recs = tamper(c, pcs_targets(), n(1, 8), n(40, 600))
    tamper_report(c, devs, byid, lambda d: True)
    made = forge(c, forge_targets(), "chain", n(6, 60))
    cov = tamper_cov(c, recs, "TamperGen enumerates every single alteration of statement (point, values, commitments, order, CRS) and opening, and draws sequences; "
                     "TamperTrace checks each verdict. ForgeGen enumerates openings whose commitments, inner commitments, responses, partial openings and claims "
                     "come from different sources under the challenges of the resulting transcript; ForgeTrace checks each verdict")
    cov["forged"] = forge_cov(made)
    return cov


def blind(c, targets):
    for i, t in enumerate(targets):
        t["id"] = i + 1
        t.setdefault("seed", 1 + (i * 2654435761 + SEED) % 1000003)
    recs = c.drive("blind", targets, split=8, env={"GOMAXPROCS": "2"})
    for r in recs:
        r["circ"] = {"n": r["circ"]["n"], "cons": [{"t": k["t"], "terms": [{"c": x["c"], "w": x["w"]} for x in k["terms"]]} for k in r["circ"]["cons"]]}
    devs = c.validate("BlindTrace", recs, lambda r: 1)
    byid = {t["id"]: t for t in targets}
    for d in devs:
        t = byid[d["id"]]
        c.violate("%s, %s, field %s%s: %s" % (d["kind"], d["what"], d["field"], ", capacity %d, lengths %s" % (d["cap"], d["lens"]) if d["kind"] == "pcs" else
                                              ", constraints %s" % [k["t"] for k in t["circ"]["cons"]], ", ".join(sorted(d["why"]))), {"deviation": d, "target": t})
    return recs


def blind_cov(c, recs, rule):
    return {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
            "measured": dict(collections.Counter("%s %s" % (r["kind"], r["what"]) for r in recs if r["ok"])),
            "directions": sum(len(m) for r in recs for m in r["mats"]), "parts_compared": sum(len(x) for r in recs for x in r["cls"]), "rule": rule,
            "samples": [{"kind": r["kind"], "what": r["what"], "field": r["field"], "cap": r["cap"], "lens": r["lens"], "evals": r["evals"], "noise": r["noise"],
                         "matrix": [len(m) for m in r["mats"]]} for r in recs[::max(1, len(recs) // 5)]][:6]}


@props.check("C13")
def c13(c):
    ts = []
    for what, field in (("rank", "toy25601"), ("fresh", "every")):
        q = 1 if what == "rank" else 0.4
        got = circuit_targets(c, [("mix", "small", field, n(int(30 * q), 600)), ("linonly", "small", field, n(int(14 * q), 200)), ("sumonly", "small", field, n(int(14 * q), 200)),
                                  ("arith", "small", field, n(int(14 * q), 200)), ("linsum", "small", field, n(int(30 * q), 300)), ("two", "small", field, n(int(14 * q), 200)), ("inf", "small", field, n(int(14 * q), 200))])
        ts += [dict(t, what=what) for t in got]
    # approximate norms: only their freshness, at ranks that hold their digits
    ts += [{k: v for k, v in t.items() if k != "light"} | {"what": "fresh"} for t in approx_target(c, n(2, 6))]
    recs = blind(c, ts)
    return blind_cov(c, recs, "circuits and assignments built by TLC (SessionGen); for fixed challenges the derivative of every revealed value along random directions of the "
                     "prover's draws is recorded with dual numbers over a 15-bit field, and BlindTrace computes the rank and compares it with the freedom the verification equations "
                     "leave; over the library's fields three proofs of the same are compared part by part")


@props.check("C17")
def c17(c):
    ts = c.enumerate("BlindGen", env={"COUNT": n(60, 300), "WHAT": "rank"})
    ts += c.enumerate("BlindGen", env={"COUNT": n(18, 300), "WHAT": "fresh"})
    ts += c.enumerate("BlindGen", env={"COUNT": n(6, 60), "WHAT": "noise"})
    recs = blind(c, ts)
    return blind_cov(c, recs, "commitments drawn by TLC (BlindGen); over the field of 257 elements the change of every revealed cell with every draw of a commitment is recorded and "
                     "BlindTrace computes the rank of these changes; over the library's fields commitments of one vector are compared part by part and the spread of the noise "
                     "is compared with the declared one")
