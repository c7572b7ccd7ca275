"""Cases about NgramCounter."""
MAXV = {8: 2 ** 8 - 1, 16: 2 ** 16 - 1, 32: 2 ** 32 - 1, 64: 2 ** 64 - 1}


def limbs(n):
    n = int(n)
    return [(n >> (16 * i)) & 0xffff for i in range(4)]


def gram_ids(ops):
    ids = {}
    for o in ops:
        ids.setdefault(tuple(o[1]), len(ids) + 1)
    return ids


def hist_case(width, init, events, exact):
    """Turn the events of one concurrent run into a case; a string says what is wrong."""
    ops, open_, finals = [], {}, []
    ids = {}

    def gid(g):
        return ids.setdefault(tuple(str(x) for x in g), len(ids) + 1)
    for pos, e in enumerate(events):
        if e[0] == "panic":
            return "a thread panicked"
        if e[0] == "c":
            o = e[2]
            open_[e[1]] = {"t": e[1], "op": "inc" if o[0] in ("inc", "incd") else o[0], "g": gid(o[1]), "by": int(o[2]),
                           "c": pos + 1}
        elif e[0] == "r":
            d = open_.pop(e[1])
            d.update(r=pos + 1, v=int(e[2]))
            ops.append(d)
        else:
            finals.append({"g": gid(e[1][1]), "v": int(e[2])})
    if open_:
        return "an operation never returned"
    return {"kind": "hist", "max": MAXV[width], "init": init, "ops": ops, "finals": finals, "exact": 1 if exact else 0}


def seq_case(width, init, ops, res):
    ids = gram_ids(ops)
    out = []
    for o, v in zip(ops, res):
        out.append({"op": {"incd": "inc"}.get(o[0], o[0]), "g": ids[tuple(o[1])], "by": limbs(o[2]), "v": limbs(v)})
    return {"kind": "seq", "max": limbs(MAXV[width]), "init": limbs(init), "ngrams": len(ids), "ops": out}
