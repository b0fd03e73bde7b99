"""Drives the shards of the Miri harness and writes the evidence of C23."""
import concurrent.futures, json, os, re, subprocess, sys, time

here, args = sys.argv[1], sys.argv[2:]
tier = os.environ.get("VERIF_TIER", "quick")
thorough = tier == "thorough"
t0 = time.time()
limit = 100000 if thorough else 800
shards = 64 if thorough else 32
workers = int(os.environ.get("MC_THREADS", "0")) or os.cpu_count() or 8
base = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--"]
known, samples = [], []
try:
    for line in open(os.path.join(here, "known_findings.jsonl")):
        line = line.strip()
        if line.startswith("{"):
            k = json.loads(line)
            if k.get("property") == "C23" and k.get("status", "known") == "known": known.append(k)
except FileNotFoundError:
    pass


def run(*a):
    left = limit - (time.time() - t0)
    p = subprocess.Popen(base + [str(x) for x in a], cwd=os.path.join(here, "miri"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        out, err = p.communicate(timeout=max(left, 5))
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return "timeout", out, err
    if p.returncode == 0 and re.search(r"^DONE ", out, re.M): return "ok", out, err
    if "error: Undefined Behavior" in err or "memory leaked" in err or "unsafe precondition(s) violated" in err: return "ub", out, err
    if "error: unsupported operation" in err: return "unsupported", out, err
    return "broken", out, err


def last_group(out):
    m = re.findall(r"^case (\d+) (.*)$", out, re.M)
    return (int(m[-1][0]), m[-1][1]) if m else (-1, "?")


def totals(out):
    m = re.findall(r"^DONE (.*)$", out, re.M)
    return {k: int(v) for k, v in (x.split("=") for x in m[-1].split())} if m else {}


def shard(i):
    """One shard, resumed behind every group that could not be interpreted."""
    start, acc, skipped, bad = 0, {}, [], []
    while True:
        st, out, err = run(i, shards, tier, start)
        samples.extend(x for _, x in re.findall(r"^case (\d+) (.*)$", out, re.M))
        for k, v in totals(out).items(): acc[k] = acc.get(k, 0) + v
        if st == "ok": return acc, skipped, bad, None
        g, name = last_group(out)
        if st == "unsupported":
            skipped.append((g, name, (re.findall(r"error: unsupported operation: (.*)", err) or ["?"])[0]))
            start = g + 1
            continue
        if st == "ub":
            leak = "memory leaked" in err and "Undefined Behavior" not in err and "unsafe precondition" not in err
            bad.append((g, name, err))
            if leak or len(bad) >= 3: return acc, skipped, bad, None
            start = g + 1
            continue
        return acc, skipped, bad, (st, name, err[-3000:])


if args[:1] == ["--replay"]:
    j = json.loads(open(args[1]).readline())
    st, out, err = run(0, 1, j["tier"], j["group"], j["group"] + 1)
    print(out + err)
    if st == "ub":
        print(f"VIOLATION property=C23 replay={args[1]}")
        sys.exit(1)
    sys.exit(0 if st == "ok" else 2)

# control: the harness builds and Miri works at all
st, out, err = run(0, 1, tier, 0, 0)
if st != "ok":
    print("harness of C23 does not run:\n" + (out + err)[-4000:], file=sys.stderr)
    sys.exit(2)
acc, skipped, bad, broken = {}, [], [], []
with concurrent.futures.ThreadPoolExecutor(workers) as ex:
    for a, s, b, br in ex.map(shard, range(shards)):
        for k, v in a.items(): acc[k] = acc.get(k, 0) + v
        skipped += s
        bad += b
        if br: broken.append(br)
states = acc.get("executions", 0) + acc.get("faults", 0)
ev = {
    "property": "C23", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking", "wall_s": round(time.time() - t0, 2),
    "coverage": {
        "states": states, "transitions": acc.get("ops", 0), "traces_validated_against_impl": acc.get("executions", 0),
        "groups": acc.get("groups", 0), "executions_with_a_fault_at_one_crash_point": acc.get("faults", 0),
        "executions_that_panicked_by_themselves": acc.get("panics", 0), "groups_not_interpretable": [list(s) for s in skipped], "violations": len(bad),
        "samples": sorted(samples)[:: max(1, len(samples) // 12)] + [
            "contract_spec::<1>(Diagonal([[Z5; 2]; 3]), Raw([Z5; 3])) and every other pair of representations, dimensions 0..3, with a panic injected at each scalar operation in turn",
            "zip_map/zip_map_id/zip_mut/zip_fold of every rank from 1 to 5 with itself and with a scalar on either side, panicking at each call of the closure in turn",
        ],
    },
    "assumptions": ["Miri (strict provenance, symbolic alignment, Stacked Borrows) is the definition of undefined behaviour",
                    "calls into the C library behind special-fun are outside what Miri can interpret and are not made"],
}
json.dump(ev, open(os.path.join(here, "evidence", "C23.json"), "w"), indent=1)
print(f"C23: {acc.get('groups', 0)} groups, {acc.get('executions', 0)} executions, {acc.get('faults', 0)} more with a fault, {len(skipped)} groups not interpretable, {round(time.time() - t0)} s")
rc = 0
for n, (g, name, err) in enumerate(bad):
    what = (re.findall(r"error: (Undefined Behavior: .*|memory leaked.*)", err) or re.findall(r"(unsafe precondition\(s\) violated: .*)", err) or ["?"])[0]
    where = (re.findall(r"(?:-->|at) (?:\S*/)?(aegir\S*/src/\S+?):\d+", err[err.find("error: "):]) or ["?"])[0]
    hit = next((k for k in known if k.get("match") and k["match"] in name + " " + what), None)
    if hit:
        print(f"KNOWN-FINDING: property=C23 {hit['what']}")
        continue
    path = os.path.join(here, "out", f"C23-{n}.json")
    with open(path, "w") as f:
        f.write(json.dumps({"group": g, "name": name, "tier": tier, "what": what, "where": where}) + "\n" + err)
    print(f"{name}: {what} ({where})")
    print(f"VIOLATION property=C23 replay={path}")
    rc = 1
if rc == 0 and broken:
    print("C23 could not finish: " + "; ".join(f"{s} in {n}: {e[-500:]}" for s, n, e in broken), file=sys.stderr)
    rc = 2
sys.exit(rc)
