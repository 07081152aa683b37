"""Checks on concurrent use."""
import collections, glob, os
import props
from common import CheckError, DriverCrash, THOROUGH, SEED


def n(q, t):
    return t if THOROUGH else q


PAIR = [[5, 6, 7, 8], [9, 10, 11, 12], [13, 14]]
APPROX = [[3, 4], [5, 6, 7, 8, 9, 10]]
PCS = [[6, 7, 8, 9], [10, 11, 12, 13], [14, 15, 16, 17], [18, 19, 20]]


def session_items(c, count, field):
    out = []
    for focus in ("mix", "lin", "sum", "two"):
        for s in c.generate("SessionGen", count, env={"FOCUS": focus, "MODE": "together", "RANKS": "small", "FIELD": field})[:count]:
            out.append({"kind": "pair", "session": s, "par": PAIR})
    return out


def approx_items(c, count, field):
    """Circuits with a projection challenge, which both sides expand into their own checker."""
    out = []
    for s in c.enumerate("ApproxGen", env={"MODE": "together", "COUNT": 4 * count, "FIELD": field, "BIG": "no"}):
        if any(k["t"] == "approx" and k["b"] > 0 for k in s["circs"][0]["cons"]):
            out.append({"kind": "pair", "session": s, "par": APPROX, "slow": True})
    return out[:count]


def pcs_items(c, count, fields):
    out = []
    for k in c.enumerate("PcsGen", env={"COUNT": count * 6, "MAXCAP": 300, "MODE": "together"}):
        if k["field"] in fields and len(out) < count:
            out.append({"kind": "pcs", "pcs": k, "par": PCS})
    return out


def ring_items(c, count, fields, procs=3):
    by = collections.defaultdict(list)
    for p in c.enumerate("RingGen", env={"KIND": "all", "ALIAS": "no", "COUNT": 60 * count, "LENGTH": 14, "MAXN": 64}):
        if p["field"] in fields:
            by[(p["ring"], p["n"], p["field"])].append(p)
    out = []
    for key in sorted(by):
        for j in range(0, len(by[key]) - procs + 1, procs):
            out.append({"kind": "ring", "rings": by[key][j:j + procs], "par": [[]] * procs})
    step = max(1, len(out) // count)
    return out[::step][:count]


def play(c, items, **kw):
    """Runs the items and validates what the calls returned against the sequential specifications."""
    for i, it in enumerate(items):
        it["id"] = i + 1
    recs = c.drive("conc", items, split=8, **kw)
    runs = [(r, k) for r in recs for k in r["runs"]]
    order = []  # what each validated record belongs to
    def tag(x, r, k):
        x["id"] = len(order) + 1
        order.append((r, k))
        return x
    sess = [tag(k["session"], r, k) for r, k in runs if "session" in k]
    pcs = [tag(k["pcs"], r, k) for r, k in runs if "pcs" in k]
    rings = [tag(x, r, k) for r, k in runs for x in k.get("rings", [])]
    devs = []
    if sess:
        devs += c.validate("SessionTrace", sess, lambda r: len(r["ev"]))
    if pcs:
        devs += c.validate("PcsTrace", pcs, lambda r: len(r["ev"]))
    if rings:
        devs += c.validate("RingTrace", rings, lambda r: len(r["prog"]))
    c.traces += len(runs) - len(sess) - len(pcs) - len(rings)
    bad = collections.OrderedDict()
    for d in devs:
        r, k = order[d["id"] - 1]
        bad.setdefault((r["id"], r["kind"]), []).append((k["sched"], d))
    for (i, kind), ds in bad.items():
        if all(k == 0 for k, _ in ds) or any(k == 0 for k, _ in ds):
            continue  # wrong without any concurrency: other properties judge that
        k, d = ds[0]
        c.violate("%s: %s: call %s does not return what it returns in a sequential run (%s)" % (
            kind, "all at once" if k < 0 else "schedule %d" % k, d.get("at"), d.get("why")), {"deviation": d, "item": items[i - 1], "schedule": items[i - 1]["scheds"][k - 1] if k > 0 else None})
    return runs


@props.check("C18")
def c18(c):
    # the promise in the model: separate scratch is safe under every interleaving, shared scratch is not
    t = c.tlc("Conc")
    if t.rc != 0:
        raise CheckError("Conc: " + t.out[-2000:])
    c.states += t.distinct
    c.transitions += t.generated
    u = c.tlc("Conc", cfg="ConcShared")
    if u.rc == 0 or "Sequential is violated" not in u.out:
        raise CheckError("the model does not expose shared scratch")
    scheds = {p: [{k: x[k] for k in ("cyc", "slices")} for x in c.enumerate("ConcGen", env={"COUNT": n(240, 3000), "PROCS": p})] for p in (2, 3, 4)}
    items = approx_items(c, n(2, 12), "zp240") + session_items(c, n(4, 40), "zp240") + pcs_items(c, n(12, 80), ("toy25601", "zp240")) + ring_items(c, n(16, 120), ("toy7681", "toy12289", "toy40961"))
    per = {"pair": n(5, 30), "pcs": n(8, 40), "ring": n(12, 60)}
    used = collections.Counter()
    for it in items:
        p = len(it["par"])
        k = per[it["kind"]] // (2 if it.pop("slow", False) else 1)
        it["scheds"] = [scheds[p][(used[p] + j) % len(scheds[p])] for j in range(k)]
        used[p] += k
        it["free"] = 0
    runs = play(c, items, env={"GOMAXPROCS": "2"})
    forced = [k for _, k in runs if k["sched"] > 0]
    if not c.violations and (not forced or sum(1 for k in forced if k["switches"] > 1) < len(forced) // 2):
        raise CheckError("schedules were not followed")
    # without control, under the race detector
    free = approx_items(c, n(2, 8), "zp127") + session_items(c, n(2, 20), "zp127") + pcs_items(c, n(4, 40), ("zp240", "toy25601")) + ring_items(c, n(8, 80), ("toy7681", "toy12289", "zp127"))
    for it in free:
        it["scheds"], it["free"] = [], 1 if it.pop("slow", False) else n(2, 10)
    log = os.path.join(c.work, "race")
    more = play(c, free, race=True, env={"GORACE": "exitcode=0 halt_on_error=0 log_path=" + log})
    reports = [open(f).read() for f in glob.glob(log + ".*")]
    races = sum(x.count("DATA RACE") for x in reports)
    what = "".join(reports)[:3000]
    for d in c.validate("ConcTrace", [{"id": 1, "kind": "free", "races": races, "what": what}], lambda r: 1):
        c.violate("unordered accesses to shared memory between calls that may run at the same time:\n" + d["what"][:500], {"deviation": d})
    return {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
            "runs": dict(collections.Counter("%s %s" % (r["kind"], "controlled" if k["sched"] > 0 else "sequential" if k["sched"] == 0 else "free") for r, k in runs + more)),
            "switches": sum(k["switches"] for k in forced), "gates": sum(k["gates"] for k in forced), "freed": sum(1 for k in forced if k["freed"]),
            "rule": "Conc model-checked: separate scratch gives sequential results under every interleaving of at most three preemptions. ConcGen draws schedules; the driver enforces "
                    "them at the operations of gated fields; calls of all processes are validated by the sequential specifications (SessionTrace, PcsTrace, RingTrace). Uncontrolled "
                    "runs under the race detector",
            "samples": [{"kind": it["kind"], "schedule": it["scheds"][0]} for it in items[:: max(1, len(items) // 3)]][:3]}
