#!/opt/venv/bin/python
"""Run one check:  run.py C01 [--tier quick|thorough] [--selftest]"""
import argparse
import importlib
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(1, os.path.join(HERE, "checks"))
import vf  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--selftest", action="store_true", help="corrupt one recorded field per operation: all must be rejected")
    ap.add_argument("--dump", type=int, default=0, help="print some of the recorded events")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = a.property
    for f in os.listdir(os.path.join(HERE, "evidence", "replay")) if os.path.isdir(os.path.join(HERE, "evidence", "replay")) else []:
        if f.startswith(prop + "-"):
            os.remove(os.path.join(HERE, "evidence", "replay", f))
    tr = vf.Trace(prop, a.tier, seed)
    mod = None
    crash = None
    try:
        mod = importlib.import_module(prop.lower())
        mod.drive(tr)
    except vf.SpecError:
        raise
    except BaseException as e:
        frames = traceback.extract_tb(e.__traceback__)
        inside = any(f.filename.startswith(vf.REPO + os.sep) for f in frames) or isinstance(e, (ImportError, AttributeError))
        if isinstance(e, vf.ChildCrash):
            inside = e.inside
        if isinstance(e, KeyboardInterrupt) or not inside:
            raise
        crash = "".join(traceback.format_exception_only(type(e), e)).strip()[:500]
        crash_tb = getattr(e, "tb", None) or traceback.format_exc()[-3000:]
    if a.dump:
        ops = {}
        for s in tr.sessions:
            for e in s:
                ops.setdefault(e[0], []).append(e)
        for op in ops:
            print(op, len(ops[op]))
            for e in ops[op][:a.dump]:
                print("    ", vf.jsonable(e))
        print("total", tr.count(), "events", round(time.time() - t0, 2), "s")
    t1 = time.time()
    level = getattr(mod, "LEVEL", "exploration") if mod else "exploration"
    module = getattr(mod, "SPEC", prop) if mod else prop
    if a.selftest:
        return selftest(tr, module)
    nviol = 0
    lines = []
    stats = dict(states=0, transitions=0, sessions=len(tr.sessions), events=tr.count(), known=set())
    if crash:
        nviol += 1
        path = vf.write_replay(prop, 0, {"property": prop, "clause": "the code under test raised", "error": crash, "traceback": crash_tb})
        lines.append(f"VIOLATION property={prop} replay={path}")
        print(f"  {crash}")
    if tr.sessions:
        failures, stats = vf.validate(tr, module, getattr(mod, "SHARD", 400))
        for k, (e, clause, last) in enumerate(failures):
            nviol += 1
            path = vf.write_replay(prop, k + 1, {"property": prop, "specification": f"spec/{module}.qnt", "clause": clause, "event": vf.jsonable(e),
                                                 "seed": seed, "tier": a.tier, "state": {k: str(v)[:400] for k, v in last.items()}})
            lines.append(f"VIOLATION property={prop} replay={path}")
            if k < 8:
                print(f"  {e[0]}: {clause}: {str(e[2])[:300]}")
    for ln in lines[:8]:
        print(ln)
    listed = vf.load_known(prop)
    for k in sorted(stats["known"]):
        print(f"KNOWN-FINDING: property={prop} {k}: {listed.get(k, '')}")
    ops = {}
    samples = []
    distinct = set()
    for s in tr.sessions:
        for e in s:
            if e[0] not in ops:
                samples.append(vf.jsonable(e))
            ops[e[0]] = ops.get(e[0], 0) + 1
            distinct.add((e[0],) + tuple(vf.enc(x) for x in e[1]))
    cov = dict(tr.extra)
    cov.update({"evaluations": tr.count(), "distinct_nontrivial": len(distinct), "states": stats["states"], "transitions": stats["transitions"],
                "traces_validated_against_impl": stats["sessions"], "events_per_operation": ops, "samples": samples[:12],
                "rule": getattr(mod, "RULE", "one event per observed call; distinct = different operation, inputs or outputs")})
    if "mc_states" in cov:  # the exhaustive part of a model checking run
        cov["trace_states"], cov["trace_transitions"] = cov["states"], cov["transitions"]
        cov["states"], cov["transitions"] = cov.pop("mc_states"), cov.pop("mc_transitions")
    vf.write_evidence(prop, {"property": prop, "tier": a.tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
                             "violations": nviol, "assumptions": getattr(mod, "ASSUMPTIONS", [])})
    print(f"{prop} {a.tier}: {tr.count()} events, {stats['sessions']} behaviours, {stats['states']} states, "
          f"{nviol} violations, drive {t1 - t0:.1f} s, total {time.time() - t0:.1f} s")
    return 1 if nviol else 0


def selftest(tr, module):
    """binding: perturb one recorded field of one event at a time; the specification must reject"""
    bad = 0
    total = 0
    ops = {}
    for s in tr.sessions:
        for i, e in enumerate(s):
            ops.setdefault(e[0], []).append((s, i))
    for op, occ in ops.items():
        nf = len(occ[0][0][occ[0][1]][1])
        for f in range(1, nf):
            rejected = 0
            tries = [occ[tr.rng.randrange(len(occ))] for _ in range(5)]
            for s, i in tries:
                e = s[i]
                fl = list(e[1])
                if f >= len(fl):
                    continue
                x = vf.enc(fl[f])
                if abs(x) >= vf.LIM:
                    continue
                fl[f] = vf.Raw(x + x // 1000 + (1 << 90))
                ss = s[:i] + [(op, tuple(fl), e[2])] + s[i + 1:]
                l, v, _, _ = vf.validate_shard(module, ss, 1, known=sorted(vf.load_known(tr.prop)))
                rejected += (v != "ok" or l != len(ss))
            total += 1
            print(f"{op} field {f}: {rejected}/{len(tries)} corruptions rejected")
            if not rejected:
                bad += 1
    print(f"selftest: {total - bad}/{total} fields bound")
    return 0


if __name__ == "__main__":
    sys.exit(main())
