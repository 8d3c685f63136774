"""
Which lines of the package do the simulations execute?

    python3 tools/coverage.py [RUNS] [PROP ...]

Runs RUNS scenarios of each property in this process and prints the lines of
functions that no run executed (module-level lines and docstrings excluded).
"""

import collections
import importlib
import json
import os
import sys
import types

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

HIT = collections.defaultdict(lambda: collections.defaultdict(set))


def main():
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    props = sys.argv[2:] or [f"C{k:02d}" for k in range(1, 13)]
    from dst import worker
    out = os.fdopen(os.dup(1), "w")
    worker.setup()
    from dst.world import PKG
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "dst")
    current = [None]

    def on_line(code, line):
        if code.co_filename.startswith(PKG):
            HIT[code.co_filename][line].add(current[0])
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    for prop in props:
        current[0] = prop
        mon.restart_events()
        mod = importlib.import_module(f"dst.props.{prop.lower()}")
        for i in range(runs):
            worker.execute(mod, json.loads(json.dumps(mod.generate(1, i, "quick"))))
    mon.set_events(mon.COVERAGE_ID, 0)
    for path in sorted(os.listdir(PKG)):
        if not path.endswith(".py"):
            continue
        full = os.path.join(PKG, path)
        code = compile(open(full).read(), full, "exec")
        src = open(full).read().splitlines()
        missed = []

        def walk(c, name):
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k, f"{name}.{k.co_name}".lstrip("."))
            if c.co_flags & 2:      # functions: CO_NEWLOCALS
                lines = {ln for *_x, ln in c.co_lines() if ln} - {c.co_firstlineno}
                gone = sorted(ln for ln in lines if ln not in HIT[full])
                if gone:
                    missed.append((gone, name, len(gone) == len(lines)))
        walk(code, "")
        total = sum(1 for _ in HIT[full])
        print(f"== {path}: {total} lines executed", file=out)
        for gone, name, whole in sorted(missed):
            print(f"   {name}{' (never called)' if whole else ''}: " +
                  "; ".join(f"{ln}: {src[ln - 1].strip()[:60]}" for ln in gone[:4]), file=out)
    out.flush()


if __name__ == "__main__":
    main()
