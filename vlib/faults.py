"""Fault plans against the steps of a project."""

TOOL_FAULTS = ["fail=1", "fail=127", "failw=3", "partial=1", "sig=9", "sig=11", "sigw=15", "failw=255"]
CB_FAULTS = ["false", "throw", "throwint", "fatal", "false_after", "throw_after"]


def match_of(p, model, key):
    """plan match (substring of the argv joined by 0x1f) for a step of the project; None for callbacks"""
    U = "\x1f"
    if key[0] == "obj":
        return "-c" + U + key[2] + U, p.target_dir(key[1]) + "/"
    if key[0] == "pch":
        return p.target_dir(key[1]) + "/buildcc_pch.h.gch" + U, None
    if key[0] == "link":
        t = p.targets[key[1]]
        o = model.out_of(p, t)
        return ("rcs" + U if t.cls.startswith("static") else "-o" + U) + o + U, None
    return None, None


def plan_for(rng, p, model, keys, faults=None):
    """returns (plan lines, callback behaviours, set of step keys made to fail)"""
    plan, cbs, hit = [], {}, set()
    for k in keys:
        if k[0] == "gen":
            g = p.gens[k[1]]
            if g.cls == "custom":
                cbs[(k[1], k[2])] = {"ret": rng.choice(CB_FAULTS)}
                hit.add(k)
            else:
                c = rng.randrange(g.ncmd)
                plan.append(("-t\x1fT%d_%d\x1f" % (g.text, c), rng.choice(faults or TOOL_FAULTS)))
                hit.add(k)
        else:
            m, _ = match_of(p, model, k)
            plan.append((m, rng.choice(faults or TOOL_FAULTS)))
            hit.add(k)
    return plan, cbs, hit
