#!/opt/venv/bin/python
"""check.py PROPERTY: decides a property on the code in /repo.

Exit code 0 if it held on everything that was explored, 1 (and a VIOLATION line) if not.
Everything else is an error of ours.
"""
import json
import os
import pathlib
import sys
import time
import traceback

sys.dont_write_bytecode = True
VERIF = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF / "lib"))

import tlc  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.monotonic()
    import checks

    outcome = checks.run(pid, seed, tier)
    wall = time.monotonic() - start
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": outcome["level"],
        "coverage": outcome["coverage"],
        "assumptions": outcome.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(outcome["violations"]),
    }
    path = VERIF / "evidence" / f"{pid}.json"
    path.parent.mkdir(exist_ok=True)
    path.write_text(json.dumps(evidence, indent=1, ensure_ascii=True) + "\n")
    for line in outcome.get("findings", []):
        print(f"KNOWN-FINDING: property={pid} {line}")
    if outcome["violations"]:
        directory = VERIF / "build" / "violations"
        directory.mkdir(parents=True, exist_ok=True)
        worst = min(outcome["violations"], key=lambda v: len(json.dumps(v)))
        replay = directory / f"{pid}.json"
        replay.write_text(json.dumps(dict(worst, property=pid), indent=1) + "\n")
        print(json.dumps(worst)[:1500])
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    print(f"{pid} held ({tier}, {wall:.0f} s): {json.dumps(outcome['coverage'])[:300]}")
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
