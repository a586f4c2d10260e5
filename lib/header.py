"""C01 .. C09: the folding step, validated against HeaderRules / HeaderChain."""
import json, os, random, re, time
import common
from common import SPEC, ROOT, ToolError
from gadgets import numeral

PROPS = ["C%02d" % i for i in range(1, 10)]
FIELDS = ["pallas", "vesta", "bn"]
# outputs an adversary aims at
OUTS = {"C01": "0", "C02": "12", "C03": "1,2,3,4,5,6,7,8,9,10,11", "C04": "12", "C05": "13,14", "C06": "15", "C09": ""}

ASSUME = [
    "states outside WellFormed of spec/HeaderRules.tla (targets above the maximum, counters from 2016, times from 2^32) are not judged",
    "headers with real work are needed to get past the hash comparison: 57 mined or historical headers, and mutations of them that must be refused",
    "the adversarial prover is a search: it can miss an accepted assignment, it cannot invent one",
    "Java, TLC and the recorder are trusted; the Java overrides of BigNum and Sha256d are compared with the TLA+ definitions in each run",
]


def budget(prop, tier):
    """cases drawn by HeaderGen, and how many are attacked"""
    q = dict(own=3, some=1, rand=120, flips=80, x=160, m=14)
    if prop == "C02":
        q.update(flips=320, own=6)
    if prop in ("C04", "C05"):
        q.update(own=4, some=0, rand=80)
    if prop == "C07":
        q.update(rand=1200, flips=0, some=3, x=0, m=0)
    if prop == "C08":
        q.update(rand=160, flips=40, x=0, m=0)
    if prop == "C09":
        q.update(rand=200, some=3, x=320, m=30)
    if tier == "thorough":
        q = {k: v * 8 for k, v in q.items()}
    return q


def hexs(c):
    return " ".join("%x" % numeral(z) for z in c["z"])


def show(e, head, fields, cases):
    c = cases[e["case"]]
    o = dict(kind={"h": "honest prover", "f": "forged witness", "s": "circuit shape", "c": "chain step"}[e["k"]],
             field=fields[e["f"] - 1]["id"], header=bytes(head[e["h"] - 1]).hex(), from_case=c["name"], plan=c["plan"],
             state=[str(numeral(x)) for x in e["z"]])
    if e["k"] == "s":
        o.update(setup=e["setup"], prove=e["prove"])
    else:
        o.update(verdict=e["v"], outputs=[str(numeral(x)) for x in e["zo"]], how=e["tag"])
        if e["k"] == "c":
            o["step"] = e["idx"]
    return o


def model(work, tier):
    """the rules themselves: chains of HeaderChain for small constants"""
    cfg = os.path.join(SPEC, "HeaderChain.cfg" if tier == "quick" else "HeaderChainBig.cfg")
    t = common.tlc(os.path.join(SPEC, "HeaderChainMC.tla"), cfg, work, timeout=600 if tier == "quick" else 3000, coverage=False)
    if t.inv or t.rc != 0 or t.distinct < 1000:
        raise ToolError("HeaderChain does not have its invariants:\n" + common.tail(t.out))
    return t


def run(prop, vh, tier, seed, t0):
    work = common.workdir(prop)
    n_self = common.selftest(work) + common.selftest_sha(work)
    mod = model(work, tier)
    b = budget(prop, tier)
    # cases from the specification
    fix = os.path.join(work, "fixtures.ndjson")
    with open(fix, "w") as f:
        for l in open(os.path.join(ROOT, "fixtures", "headers.txt")):
            n, h = l.split()
            f.write(json.dumps(dict(name=n, bytes=list(bytes.fromhex(h)))) + "\n")
    out = os.path.join(work, "cases.ndjson")
    g = common.tlc(os.path.join(SPEC, "HeaderGen.tla"), os.path.join(SPEC, "HeaderGen.cfg"), work,
                   dict(FIXTURES=fix, OUT=out, FOCUS=prop, NOWN=str(b["own"]), NSOME=str(b["some"]), NRANDOM=str(b["rand"]), NFLIPS=str(b["flips"])),
                   600, coverage=False, extra=["-seed", str(seed)])
    if g.rc != 0 or not os.path.exists(out):
        raise ToolError("HeaderGen: " + common.tail(g.out))
    cases = [json.loads(l) for l in open(out)]
    rng = random.Random(seed)
    att = [i for i, c in enumerate(cases) if c["kind"] != "chain"]
    rng.shuffle(att)
    # own plans first, then the others
    att.sort(key=lambda i: cases[i]["kind"] not in ("own", "base"))
    xs = set(att[: b["x"]])
    ms = set([i for i in att if cases[i]["valid"]][: b["m"]])
    if prop == "C09":
        rng.shuffle(att)
        xs, ms = set(att[: b["x"]]), set([i for i in att if cases[i]["valid"]][: b["m"]])
    with open(os.path.join(work, "cases.txt"), "w") as f:
        for i, c in enumerate(cases):
            if c["kind"] == "chain":
                mode, hd = "c", ",".join(bytes(x).hex() for x in c["hdrs"])
            else:
                mode, hd = "h", bytes(c["hdr"]).hex()
                if i in xs:
                    mode += "x"
                if i in ms:
                    mode += "m"
                if prop == "C08":
                    mode += "s"
            f.write(f"{mode} {FIELDS[(i + seed) % 3]} {hd} {hexs(c)}\n")
    r = common.sh([vh, "header", "--cases", os.path.join(work, "cases.txt"), "--seed", str(seed), "--outs", OUTS.get(prop, ""), "--out", work],
                  600 if tier == "quick" else 6000)
    m = re.search(r'^\{"cases".*\}$', r.stdout, re.M)
    if r.returncode != 0 or not m:
        raise ToolError("recorder failed: " + common.tail(r.stdout))
    stats = json.loads(m.group(0))
    # the recorded steps, one by one and as chains
    trace = os.path.join(work, "events.ndjson")
    steps, chains = os.path.join(work, "steps.ndjson"), os.path.join(work, "chains.ndjson")
    L = open(trace).read().split("\n")
    with open(steps, "w") as fs, open(chains, "w") as fc:
        fs.write(L[0] + "\n")
        fc.write(L[0] + "\n")
        for l in L[1:]:
            if l:
                (fc if l.startswith('{"k":"c"') else fs).write(l + "\n")
    head = json.loads(L[0])
    bad = []
    counts = {}
    tot = [0, 0]
    for f, m1, c1, c2 in ((steps, "HeaderTrace", "HeaderTrace", "HeaderList"), (chains, "HeaderRun", "HeaderRun", "HeaderRunList")):
        M = os.path.join(SPEC, m1 + ".tla")
        env = dict(TRACE=f, SCOPE=prop)
        t = common.tlc(M, os.path.join(SPEC, c1 + ".cfg"), work, env, 900, coverage=False)
        tot[0] += t.distinct
        tot[1] += t.generated
        if t.rc != 0 or t.inv:
            if not t.inv:
                raise ToolError(m1 + ": " + common.tail(t.out))
            if m1 == "HeaderRun" and t.inv != ["Follows"]:
                raise ToolError("history invariant fails on a recorded chain: " + common.tail(t.out))
            t = common.tlc(M, os.path.join(SPEC, c2 + ".cfg"), work, env, 900, coverage=False)
            lines = open(f).read().split("\n")
            flat = re.sub(r"\s+", " ", t.out)
            for x in re.finditer(r'<<\s*"(BAD|BADCHAIN)", (\d+), \{([^}]*)\}\s*>>', flat):
                cl = [y.strip().strip('"') for y in x.group(3).split(",")]
                bad.append(dict(clauses=cl, ev=json.loads(lines[int(x.group(2))])))
            if m1 == "HeaderTrace" and not bad:
                raise ToolError("violation without a listing: " + common.tail(t.out))
        flat = re.sub(r"\s+", " ", t.out)
        for x in re.finditer(r'<< ?"LANE", \[([^\]]*)\]', flat):
            for y in x.group(1).split(","):
                k, v = y.split("|->")
                counts[k.strip()] = counts.get(k.strip(), 0) + int(v)
    scope = SCOPES[prop]
    for x in bad:
        x["clauses"] = [c for c in x["clauses"] if c in scope]
    bad = [x for x in bad if x["clauses"]]
    known = common.known_findings(prop)
    fresh = []
    for x in bad:
        key = ":".join(x["clauses"]) + ":" + bytes(head["headers"][x["ev"]["h"] - 1]).hex()
        if key in known:
            print(f"KNOWN-FINDING: property={prop} {known[key]}")
        else:
            fresh.append(x)
    n = len(L) - 2
    valid = sum(1 for c in cases if c["valid"])
    ev = [json.loads(L[1 + (n * k) // 4]) for k in range(4)]
    cov = dict(states=tot[0] + mod.distinct, transitions=tot[1] + mod.generated, traces_validated_against_impl=n - len(bad), chain_model_states=mod.distinct,
               events=counts, cases=len(cases), valid_cases=valid, headers=len(head["headers"]), recorder=stats, override_selftest_states=n_self,
               samples=[show(e, head["headers"], head["fields"], cases) for e in ev], exhaustive=False)
    common.write_evidence(prop, tier, seed, "model_checking", cov, time.time() - t0, len(fresh), ASSUME)
    if fresh:
        kinds = {}
        for x in fresh:
            kinds.setdefault((tuple(x["clauses"]), x["ev"]["k"]), []).append(x)
        sh = lambda x: show(x["ev"], head["headers"], head["fields"], cases)
        rep = dict(property=prop, tier=tier, seed=seed, repo=common.repo_head(),
                   rerun=f"cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} python3 run_check.py {prop}",
                   violations=[dict(clauses=list(c), count=len(v), first=sh(v[0])) for (c, k), v in kinds.items()])
        p = common.write_replay(prop, "step", rep)
        for (c, k), v in kinds.items():
            print(f"{prop}: {','.join(c)} fails ({len(v)} recorded steps), e.g. {json.dumps(sh(v[0]))[:900]}")
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    print(f"{prop}: {n} recorded steps follow the rules ({json.dumps(counts)}), {stats['unsat']} adversarial searches exhausted, {stats['unknown']} undecided, "
          f"{mod.distinct} chain model states")
    return 0


SCOPES = {"C01": ["Prev", "OutTip"], "C02": ["Bits", "Pow"], "C03": ["Time", "OutWindow"], "C04": ["Sched", "Cap", "OutTarget"],
          "C05": ["OutCtr", "OutStart"], "C06": ["OutWork"], "C07": ["MustAccept", "Declared"], "C08": ["Shape", "Arity"], "C09": ["Forged"]}
