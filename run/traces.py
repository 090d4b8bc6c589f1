"""Trace validation: TLC judges records written by the real code.

The record file is cut into shards; one TLC per shard steps through its records
(module Judge.tla plus the property's predicates).  A record the specification
does not accept is printed as {"bad": <line>, "why": <text>}."""
import json, os, shutil


def validate(prop, t, tracefile, work, start_tlc, finish_tlc, cores, tmul):
    lines = [l for l in open(tracefile) if l.strip()]
    if len(lines) < t.get("floor", 1):
        raise RuntimeError("only %d records" % len(lines))
    n = max(1, min(cores, len(lines)))
    hs = []
    for i in range(n):
        f = os.path.join(work, "trace%d.jsonl" % i)
        with open(f, "w") as g:
            g.writelines(lines[i::n])
        j = dict(module=t["module"], init="JInit", next="JNext", consts=t.get("consts", {}), defs=t.get("defs", {}), subst={"Verdict": t["verdict"]}, invs=[])
        hs.append(start_tlc(j, os.path.join(work, "judge%d" % i), 1, timeout=t.get("timeout", 400) * tmul, workers=1, env={"TRACE": f}))
    viol, states, ok = [], 0, 0
    for i, h in enumerate(hs):
        r = finish_tlc(h)
        states += r["states"]
        done = False
        for b in r["beh"]:
            b = json.loads(b)
            if "done" in b:
                done = True
                ok += b["done"]
            else:
                rec = json.loads(lines[i + n * (b["bad"] - 1)])
                viol.append({"property": prop, "key": b.get("key", t["module"]), "detail": b["why"], "input": rec, "behaviour": rec.get("line", 0)})
        if not done:
            raise RuntimeError("the judge did not finish\n" + "".join(r["text"])[-3000:])
        shutil.rmtree(h["d"], ignore_errors=True)
        os.remove(os.path.join(work, "trace%d.jsonl" % i))
    return viol, states, len(lines), [{"kind": "trace validation", "module": t["module"], "constants": t.get("consts", {}), "records": len(lines), "accepted": len(lines) - len(viol)}]
