#!/usr/bin/env python3
"""Builds all harnesses once, so that later runs in the same tree find them cached."""
import sys, os, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, checks as C
todo = []
for p in sorted(C.CHECKS):
    for part in C.CHECKS[p]["parts"]:
        t = (part["harness"], part.get("opt", "-O1"), tuple(part.get("extra", ())), tuple(part.get("ldextra", ())))
        if t not in todo:
            todo.append(t)
def one(t):
    exe, err = B.build(t[0], opt=t[1], extra=t[2], ldextra=t[3])
    print(t[0], exe or err, flush=True)
    return exe is not None
# one harness of each kind of library build first, the others in parallel
kinds, first, rest = set(), [], []
for t in todo:
    (rest if t[1:3] in kinds else first).append(t)
    kinds.add(t[1:3])
ok = [one(t) for t in first]
with cf.ThreadPoolExecutor(8) as ex:
    ok += list(ex.map(one, rest))
sys.exit(0 if all(ok) else 1)
