"""An independent reading of the documented model file format.

read(data, flex) classifies delivered bytes:
  ("raise", why)         - not a readable model file: loading has to raise
  ("inconsistent", why)  - readable, but no valid network: loading or the first simulation has to raise
  ("any", why)           - outside the documented format: only cleanliness is checked
  ("ok", spec)           - the network it describes, as a spec
"""

HEADS = ["INTERFACES_TABLE", "NODES_TABLE", "DEMANDS_TABLE"]


class _Raise(Exception):
    pass


def _rows(lines, head, to_end=False):
    at = lines.index(head) + 2
    out = []
    for line in lines[at:]:
        if line == "" and not to_end:
            break
        out.append(line)
    return out


def _num(conv, text, what):
    try:
        return conv(text)
    except ValueError:
        raise _Raise("{} {!r}".format(what, text))


def _soft(conv, text):
    try:
        return conv(text)
    except ValueError:
        return None


def read(data, flex):
    try:
        return _read(data, flex)
    except _Raise as e:
        return "raise", str(e)


def _read(data, flex):
    try:
        text = data.decode("utf-8-sig")
    except UnicodeDecodeError as e:
        return "raise", str(e)
    lines = text.replace("\r\n", "\n").replace("\r", "\n").splitlines()
    for h in HEADS:
        if h not in lines:
            return "raise", "no " + h
    order = [lines.index(h) for h in HEADS]
    if order != sorted(order):
        return "any", "table order"
    wild = None
    # ---- interfaces
    nmin = 6 if flex else 5
    ints, names = {}, []
    cids = {}
    for line in _rows(lines, "INTERFACES_TABLE"):
        f = line.split("\t")
        if not nmin <= len(f) <= nmin + 2:
            return "raise", "interface row of {} fields".format(len(f))
        node, remote, name = f[:3]
        cost, cap = _num(int, f[3], "cost"), _num(int, f[4], "capacity")
        if cost < 1 or cap <= 0:
            return "raise", "cost or capacity out of range"
        cid = f[5] if flex else None
        rest = f[nmin:]
        rsvp = rest[0] in ("T", "True", "true") if rest else True
        pct = _num(float, rest[1], "percentage") if len(rest) > 1 else 100
        if not 0 <= pct <= 100 or pct != pct:
            wild = "percentage"
        if node == remote or not node or not remote:
            wild = "node name"
        cids[cid] = cids.get(cid, 0) + 1
        if (node, name) not in ints:
            ints[(node, name)] = (remote, cost, cap, cid, rsvp, pct)
        for x in (node, remote):
            if x not in names:
                names.append(x)
    if flex and any(n != 2 for n in cids.values()):
        return "raise", "circuit ids {}".format(cids)
    # ---- nodes
    nodes = {n: {"name": n, "lon": 0, "lat": 0, "sc": False} for n in names}
    for line in _rows(lines, "NODES_TABLE"):
        f = line.split("\t")
        if len(f) > 3 and f[3] not in ("True", "False"):
            return "raise", "igp_shortcuts_enabled {!r}".format(f[3])
        lon = _soft(float, f[1]) if len(f) > 1 else None
        lat = _soft(float, f[2]) if len(f) > 2 else None
        if len(f) > 4 or not f[0] or any(x is not None and not abs(x) < 1e9 for x in (lon, lat)):
            wild = "node row"
        nodes[f[0]] = {"name": f[0], "lon": lon or 0, "lat": lat or 0, "sc": len(f) > 3 and f[3] == "True"}
    # ---- demands
    demands = {}
    for line in _rows(lines, "DEMANDS_TABLE"):
        f = line.split("\t")
        if len(f) < 4 or f[0] not in nodes or f[1] not in nodes:
            return "raise", "demand row {!r}".format(line)
        t = _num(int, f[2], "traffic")
        if t < 0:
            return "raise", "negative traffic"
        if f[0] == f[1]:
            wild = "demand to its own source"
        demands.setdefault((f[0], f[1], f[3] or "none"), t)
    # ---- LSPs
    lsps = {}
    if "RSVP_LSP_TABLE" in lines:
        if lines.index("RSVP_LSP_TABLE") < order[-1]:
            return "any", "table order"
        for line in _rows(lines, "RSVP_LSP_TABLE", to_end=True):
            f = line.split("\t")
            if len(f) < 3 or f[0] not in nodes or f[1] not in nodes:
                return "raise", "LSP row {!r}".format(line)
            bw = _soft(float, f[3]) if len(f) > 3 else None
            mm = _soft(int, f[4]) if len(f) > 4 else None
            if (bw is not None and not 0 <= bw < 1e12) or (mm is not None and mm < 1) or f[0] == f[1]:
                wild = "LSP bandwidth, metric or ends"
            lsps.setdefault((f[0], f[1], f[2]), {"s": f[0], "d": f[1], "n": f[2], "bw": bw, "mm": mm})
    if wild:
        return "any", wild
    # ---- is it a network?
    if not flex and any(n["sc"] for n in nodes.values()):
        return "inconsistent", "shortcuts"
    links, seen = [], {}
    for (node, name), v in ints.items():
        remote, cid = v[0], v[3]
        key = (cid if flex else frozenset((node, remote)))
        seen.setdefault(key, []).append((node, name) + v)
    for j, (key, ends) in enumerate(seen.items()):
        if len(ends) != 2:
            return "inconsistent", "circuit {} has {} ends".format(key, len(ends))
        a, b = ends
        if a[0] != b[2] or b[0] != a[2]:
            return "inconsistent", "circuit {} does not match".format(key)
        if a[4] != b[4]:
            return "inconsistent", "circuit {} capacities".format(key)
        links.append({"id": "f{}".format(j), "a": a[0], "b": b[0], "an": a[1], "bn": b[1], "ca": a[3], "cb": b[3],
                      "cap": a[4], "cid": a[5] or "c{}".format(j), "ra": a[6], "rb": b[6], "pa": a[7], "pb": b[7]})
    return "ok", {"nodes": list(nodes.values()), "links": links,
                  "demands": [{"s": k[0], "d": k[1], "n": k[2], "t": t} for k, t in demands.items()],
                  "lsps": list(lsps.values())}
