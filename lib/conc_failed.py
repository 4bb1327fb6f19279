"""interpretation of replay outputs (no numpy needed)"""


def failed(o, label):
    """how a replay fails, or None.  Any failing obligation counts."""
    if o is None or o["status"] in ("broken", "assume"):
        return None
    bad = [r for r in o["res"] if not r["ok"]]
    for r in bad:
        if label is None or r["label"] == label:
            return "%s: %s" % (r["label"], r["why"])
    if bad:
        return "%s: %s" % (bad[0]["label"], bad[0]["why"])
    if o["status"] == "raise":
        return "raised %s (%s)" % (o["exc"], o.get("where"))
    return None


def compare(vals, res):
    """symbolic values at the witness vs values computed by the real code"""
    if len(vals) != len(res):
        return "different number of obligations: %d vs %d" % (len(vals), len(res))
    for (lab, v), r in zip(vals, res):
        if lab != r["label"]:
            return "obligation order differs: %s vs %s" % (lab, r["label"])
        if v is None or "a" not in r:
            continue
        a = r["a"]
        if len(a) != len(v):
            return "%s: %d vs %d values" % (lab, len(v), len(a))
        flat = lambda xs: [q for x in xs for q in (x if isinstance(x, list) else [x, 0.0])]
        fa, fv = flat(a), flat(v)
        mag = max([abs(x) for x in fa if x == x and abs(x) != float("inf")] + [1e-9])
        for i, (x, y) in enumerate(zip(fa, fv)):
            if x != x and y != y:
                continue
            if not (abs(x - y) <= 1e-6 * mag + 1e-10):
                return "%s[%d]: model %.12g, real %.12g" % (lab, i // 2, y, x)
    return None
