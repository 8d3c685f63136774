"""Re-execute a replay file in a fresh process"""

import json
import sys

from .runner import HANG_S, run_worker


def main():
    path = sys.argv[1]
    doc = json.load(open(path))
    res = run_worker(["exec", path], doc["hashseed"], HANG_S["thorough"] * 2)
    v = res.get("violation")
    if res.get("hang"):
        v = {"kind": "hang", "detail": "no progress"}
    if not v:
        print(f"no violation (recorded: {doc['kind']})", res.get("harness", ""))
        return 0
    same = v["kind"] == doc["kind"] and (doc.get("hash") is None or res.get("hash") == doc["hash"])
    print(f"{v['kind']}: {v['detail']}")
    print("identical execution" if same else "violation reproduced, but the execution differs from the recorded one")
    print(f"VIOLATION property={doc['property']} replay={path}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
