#!/usr/bin/env python3
"""check.py PROP quick|thorough   run one property's simulation check
   check.py replay FILE            replay a violation
   check.py manifest               rewrite MANIFEST.json from this file

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
"""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
sys.dont_write_bytecode = True

# per property: what is real, what is simulated, what makes a run count
NET = ("one run = one simulated deployment: a sender codes legal NAL units from a seeded model, a packetiser picks the "
       "carrier, a faulty network with a simulated clock loses/duplicates/delays/corrupts/truncates packets and restarts "
       "receivers; runs are distinct when their whole event log (deliveries and hashes of everything reported) differs; "
       "runs that delivered nothing are discarded")
REAL_LIB = ["the whole h265nal library, compiled from /repo's working tree (parsers, framing, RTP, configuration box, dumps)"]
STUB_NET = ["sender/encoder (independent bit writer and syntax model)", "packetiser and faulty network with simulated clock",
            "reference framing and reference parameter-set table", "heap allocator and stack contents (seeded fill)"]
INFO = json.load(open(os.path.join(HERE, "tools", "checks.json")))


def known():
    """known_findings.txt: 'known: property=<id> class=<cls> match=<text> :: <what fails>' and 'fixed: ...' lines."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                out.append(l)
    return out


def main():
    if len(sys.argv) < 3 and sys.argv[1:2] != ["manifest"]:
        print(__doc__)
        return 2
    if sys.argv[1] == "manifest":
        return manifest()
    import build
    bins = build.build()
    bdir = os.path.join(HERE, "build")
    rep = os.path.join(bdir, "replay")
    os.makedirs(rep, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run.", dir=bdir)
    os.chmod(tmp, 0o755)
    try:
        if sys.argv[1] == "replay":
            return subprocess.call([bins["sim"], "replay", sys.argv[2], "--tmp", tmp, "--cli", bins["cli"], "--reader", bins["reader"]])
        return check(sys.argv[1], sys.argv[2], bins, rep, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, bins, rep, tmp):
    info = INFO[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    stats = os.path.join(tmp, "stats.json")
    budget = {"quick": "240", "thorough": os.environ.get("H265SIM_THOROUGH_S", "3000")}[tier]
    r = subprocess.run([bins["sim"], "check", prop, tier, "--seed", str(seed), "--out", stats, "--replays", rep, "--tmp", tmp,
                        "--cli", bins["cli"], "--reader", bins["reader"], "--time", budget,
                        "--workers", str(os.cpu_count() or 4)], stdout=subprocess.PIPE, text=True, errors="replace")
    for l in r.stdout.splitlines():
        print(l[:1000])
    rc = r.returncode
    if rc not in (0, 1):
        print("check gave no answer (exit %d)" % rc)
        return 2
    s = json.load(open(stats))
    sec = max(s["search_s"], 1e-6)
    cov = {
        "evaluations": s["runs"],
        "distinct_nontrivial": max(0, s["distinct"] - s["discarded"]),
        "rule": info.get("rule") or NET,
        "samples": s["samples"],
        "seed_base": seed,
        "runs_per_hour": int(s["runs"] / sec * 3600),
        "seeds_per_hour": int(s["runs"] / sec * 3600),
        "runs_discarded": s["discarded"],
        "simulated_time_s": round(s["sim_time_us"] / 1e6, 6),
        "simulated_clock": info.get("clock", "microseconds of the simulated network"),
        "faults_injected": s["faults"],
        "distinct_states": s["states"],
        "state_measure": info.get("state", "hash of (parameter-set table, leading bytes of the delivery)"),
        "rare_conditions_reached": s["probes"],
        "amounts": s["counts"],
        "events": s["events"],
        "library_edges_reached": s["edges_covered"],
        "library_edges_total": s["edges_total"],
        "real_components": info.get("real") or REAL_LIB,
        "stub_components": info.get("stub") or STUB_NET,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": info["level"], "coverage": cov,
          "assumptions": info.get("assumptions", []), "wall_s": round(time.time() - t0, 3), "violations": s["violations"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)
    for k in known():
        if "property=%s " % prop in k:
            print("KNOWN-FINDING: " + k[len("known:"):].strip())
    print("%s %s: %d runs, %d distinct, %d events, %.1f s" % (prop, tier, s["runs"], s["distinct"], s["events"], time.time() - t0))
    return rc


def manifest():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": [], "not_applicable": []}
    for p in props:
        i = INFO.get(p)
        if i and "na" not in i:
            m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
                                "thorough_cmd": "python3 check.py %s thorough" % p,
                                "technique": i["technique"], "level": i["level"], "level_note": i["note"]})
        else:
            m["not_applicable"].append({"property": p, "reason": i["na"] if i else "not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    return 0


if __name__ == "__main__":
    sys.exit(main())
