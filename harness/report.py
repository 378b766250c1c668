"""Episodes in readable form."""
from enc import value


def plain(x):
    """limb sequences -> floats, wherever they are recognisable"""
    if isinstance(x, dict):
        return {k: (v if k in RAW else plain(v)) for k, v in x.items()}
    if isinstance(x, list):
        if x and all(isinstance(v, int) and not isinstance(v, bool) for v in x):
            return value(x) if len(x) < 60 else x
        return [plain(v) for v in x]
    return x


RAW = {"list", "tree", "chars", "e", "codes", "ints", "idx", "at", "folder", "ext", "counts"}


def episode(e):
    ev = []
    for x in e["ev"][:12]:
        x = plain(x)
        if isinstance(x, dict) and len(str(x)) > 3000:
            x = {k: (v if len(str(v)) < 400 else str(v)[:400] + "...") for k, v in x.items()}
        ev.append(x)
    return dict(id=e["id"], world=plain(e["optics"]), events=ev)
