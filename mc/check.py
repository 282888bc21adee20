"""Command line of the checks:  check.py <property> <quick|thorough>   /   check.py replay <file>

Exit 0: property held on everything explored.  Exit 1: a VIOLATION line was printed.
"""

import gc
import json
import os
import re
import sys
import time
import traceback

TRACED = ("C19",)  # checks that run with all of shellous's tracing on (read when it is imported)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
EVID = os.path.join(HERE, "evidence")


def known_findings():
    "Entries of known_findings.txt: (property, scenario, regex, text)."
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m:
                out.append(m.groups())
    return out


def main(argv):
    if argv[:1] == ["replay"]:
        return replay(argv[1])
    if argv[:1] == ["trace-part"]:
        from mc import props, trace_cmp  # noqa: F401

        gc.collect()
        gc.freeze()
        (trace_cmp.part_one if len(argv) > 5 else trace_cmp.part)(argv[1:])
        return 0
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    t0 = time.monotonic()
    if pid in TRACED:
        os.environ["SHELLOUS_TRACE"] = "all"
    from mc import props

    prop = props.PROPS[pid]
    gc.collect()
    gc.freeze()
    known = [k for k in known_findings() if k[0] == pid]
    res = prop.run(tier, known)
    wall = round(time.monotonic() - t0, 2)
    n = 0
    seen = set()
    for v in res.violations:
        key = (v.get("scenario"), re.sub(r"[0-9.]+", "#", v["messages"][0]))
        if key in seen:
            continue
        seen.add(key)
        n += 1
        if n > 12:
            continue
        path = os.path.join(EVID, "replay", f"{pid}-{n}.json")
        v["property"] = pid
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        for m in v["messages"][:4]:
            print(f"  {v.get('scenario')}: {m}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(path, HERE)}")
    for (p, scn, rx, text), cnt in res.known.items():
        print(f"KNOWN-FINDING: property={p} {text} [seen on {cnt} schedules of {scn}]")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": res.coverage,
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": n,
    }
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    c = {k: v for k, v in res.coverage.items() if isinstance(v, (int, bool))}
    print(f"{pid} {tier}: {'VIOLATED' if n else 'ok'} {c} in {wall}s")
    for e in res.errors[:3]:
        print("CHECK ERROR:", e, file=sys.stderr)
    if n:
        return 1
    if res.errors:
        return 3
    return 0


def replay(path):
    v = json.load(open(path))
    if v["property"] in TRACED:
        os.environ["SHELLOUS_TRACE"] = "all"
    from mc import props

    prop = props.PROPS[v["property"]]
    msgs, events = prop.replay(v)
    for e in events:
        print("   ", e)
    for m in msgs:
        print("=>", m)
    print("reproduced" if msgs else "not reproduced")
    return 1 if msgs else 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
