"""C10 .. C23: recorded calls of the gadgets, validated against spec/GadgetTrace.tla."""
import json, os, re, time
import common
from common import SPEC, ToolError

SETS = ["C%d" % i for i in range(10, 24)]

ASSUME = [
    "a call outside the domain Pre of spec/GadgetSpec.tla is not judged",
    "the adversarial prover is a search: it can miss an accepted assignment, it cannot invent one",
    "Java, TLC and the recorder are trusted; the Java overrides of BigNum are compared with the TLA+ definitions in each run",
]


def numeral(d):
    """digits base 4096 -> int"""
    x = 0
    for k in reversed(d):
        x = x * 4096 + k
    return x


def show(e, fields):
    o = dict(kind={"h": "honest", "f": "forged", "s": "shape"}[e["k"]], op=e["op"], field=fields[e["f"] - 1]["id"], par=e["par"],
             cst=[str(numeral(x)) for x in e["cst"]], inputs=[str(numeral(x)) for x in e["in"]])
    if e["k"] == "s":
        o.update(setup=e["setup"], prove=e["prove"])
    else:
        o.update(verdict=e["v"], outputs=[str(numeral(x)) for x in e["out"]], how=e["tag"])
        if e["k"] == "h":
            o.update(declared=[str(numeral(x)) for x in e["dec"]], returned=[str(numeral(x)) for x in e["res"]])
            if e["bn"]:
                o["numbers"] = [dict(b, val=str(numeral(b["val"])), max=str(numeral(b["max"]))) for b in e["bn"]]
    return o


def machines(work, tier):
    """Circuits over small fields, every assignment of their wires: spec/R1CS.tla"""
    circ = [json.loads(l.rstrip(",")) for l in open(os.path.join(work, "machines.json")).read().split("\n") if l.startswith('{"op"')]
    # smallest first, the operations in turn
    byop = {}
    for c in sorted(circ, key=lambda c: c["nst"]):
        byop.setdefault(c["op"], []).append(c)
    left = 120000 if tier == "quick" else 1500000
    pick = []
    while any(byop.values()):
        for o in list(byop):
            if byop[o]:
                c = byop[o].pop(0)
                if c["nst"] <= left:
                    left -= c["nst"]
                    pick.append(c)
    if not pick:
        return None, [], []
    f = os.path.join(work, "circuits.json")
    with open(f, "w") as g:
        json.dump(dict(circ=pick), g)
    t = common.tlc(os.path.join(SPEC, "R1CS.tla"), os.path.join(SPEC, "R1CS.cfg"), work, dict(MACHINES=f),
                   400 if tier == "quick" else 3000, coverage=False)
    bad = []
    if t.inv:
        flat = re.sub(r"\s+", " ", t.out)
        for b in re.finditer(r'<<\s*"UNSOUND", (\d+), <<([\d, ]*)>>\s*>>', flat):
            c = pick[int(b.group(1)) - 1]
            x = [int(v) for v in b.group(2).split(",")]
            bad.append((c, x))
        if not bad or t.inv != ["Sound"]:
            raise ToolError("R1CS: " + common.tail(t.out))
    elif t.rc != 0:
        raise ToolError("R1CS: " + common.tail(t.out))
    elif t.distinct < len(pick):
        raise ToolError("R1CS explored too little: " + common.tail(t.out))
    return t, pick, bad


def showm(c, x):
    val = lambda l: sum(x[i - 1] * k for i, k in l) % c["p"]
    return dict(kind="assignment", op=c["op"], field=str(c["p"]), par=c["par"], cst=[str(numeral(v)) for v in c["cst"]],
                inputs=[str(v) for v in x[1: c["nin"] + 1]], verdict="satisfies every constraint", outputs=[str(val(l)) for l in c["outs"]], wires=x)


def run(prop, vh, tier, seed, t0):
    work = common.workdir(prop)
    n_self = common.selftest(work)
    r = common.sh([vh, "gadgets", "--set", prop, "--seed", str(seed), "--tier", tier, "--out", work],
                  500 if tier == "quick" else 3000, stdin=None)
    m = re.search(r'^\{"jobs".*\}$', r.stdout, re.M)
    if r.returncode != 0 or not m:
        raise ToolError("recorder failed: " + common.tail(r.stdout))
    stats = json.loads(m.group(0))
    trace = os.path.join(work, "events.ndjson")
    env = dict(TRACE=trace)
    mod = os.path.join(SPEC, "GadgetTrace.tla")
    tl = 600 if tier == "quick" else 3000
    t = common.tlc(mod, os.path.join(SPEC, "GadgetTrace.cfg"), work, env, tl)
    bad = []
    if t.inv:
        t2 = common.tlc(mod, os.path.join(SPEC, "GadgetList.cfg"), work, env, tl, coverage=False)
        flat = re.sub(r"\s+", " ", t2.out)
        for b in re.finditer(r'<<\s*"BAD", "(\w+)", (\d+), "(\w+)", "(\w+)", <<([^>]*)>>', flat):
            bad.append(dict(clause=b.group(1), index=int(b.group(2)), op=b.group(3), field=b.group(4), par=b.group(5).strip()))
        if not bad:
            raise ToolError("violation without a listing: " + common.tail(t2.out))
    elif t.rc != 0:
        raise ToolError("TLC: " + common.tail(t.out))
    if not bad and t.distinct < 100:
        raise ToolError("TLC explored too little: " + common.tail(t.out))

    want = set(b["index"] for b in bad)
    lines = open(trace).read().split("\n")
    fields = json.loads(lines[0])["fields"]
    ev = {i: json.loads(lines[i]) for i in want}
    n = len(lines) - 2
    samples = [show(json.loads(lines[1 + (n * k) // 5]), fields) for k in range(5) if n >= 5]
    known = common.known_findings(prop)
    fresh = []
    for b in bad:
        b["key"] = f'{b["clause"]}:{b["op"]}:{b["field"]}:{b["par"].replace(" ", "")}'
        if b["key"] in known:
            print(f"KNOWN-FINDING: property={prop} {known[b['key']]}")
        else:
            fresh.append(b)
    mt, circ, mbad = machines(work, tier)
    for c, x in mbad:
        b = dict(clause="Sound", op=c["op"], field=str(c["p"]), par=",".join(map(str, c["par"])), index=None, show=showm(c, x))
        b["key"] = f'Circuit:{b["op"]}:{b["field"]}:{b["par"]}'
        if b["key"] in known:
            print(f"KNOWN-FINDING: property={prop} {known[b['key']]}")
        else:
            fresh.append(b)
    ms, mg = (mt.distinct, mt.generated) if mt else (0, 0)
    cov = dict(states=t.distinct + ms, transitions=t.generated + mg, circuits_enumerated=len(circ), circuit_states=ms, traces_validated_against_impl=n if not bad else n - len(bad),
               events=t.actions, recorder=stats, override_selftest_states=n_self, samples=samples, exhaustive=False)
    common.write_evidence(prop, tier, seed, "model_checking", cov, time.time() - t0, len(fresh), ASSUME)
    if fresh:
        kinds = {}
        what = lambda b: b["show"] if b["index"] is None else show(ev[b["index"]], fields)
        for b in fresh:
            kinds.setdefault((b["clause"], b["op"]), []).append(b)
        rep = dict(property=prop, tier=tier, seed=seed, repo=common.repo_head(),
                   rerun=f"cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} python3 run_check.py {prop}",
                   violations=[dict(clause=c, op=o, count=len(v), first=what(v[0])) for (c, o), v in kinds.items()])
        p = common.write_replay(prop, "gadget", rep)
        for (c, o), v in kinds.items():
            print(f"{prop}: {c} fails for {o} ({len(v)} recorded calls), e.g. {json.dumps(what(v[0]))[:600]}")
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    print(f"{prop}: {n} recorded calls are steps of GadgetTrace ({json.dumps(t.actions)}), {stats['unsat']} adversarial searches exhausted, "
          f"{stats['unknown']} undecided, {len(circ)} circuits enumerated ({ms} states)")
    return 0
