"""Which properties does a mismatch between the specification and a trace break?

A mismatch is reported by PicaTrace.tla as {h, cls, kind, why, exp, obs}: at device h, a message of class
cls that the specification sends because of `why` (a command kind, "round", "inband", "conn") is missing,
different, out of order, or one too many was sent.  The mapping follows the statements in properties.jsonl."""

# The property that says what a command does (its answer is part of that).
COMMAND = {
    "reset": {"C03"}, "devinfo": {"C22"}, "caps": {"C22"}, "setcore": {"C22"}, "getcore": {"C22"}, "power": {"C22"},
    "country": {"C22"}, "init": {"C05"}, "deinit": {"C05"}, "count": {"C05"}, "state": {"C04"}, "start": {"C04"},
    "stop": {"C04"}, "setapp": {"C08"}, "getapp": {"C09", "C08"}, "mcast": {"C13"}, "rcount": {"C10"}, "bad": {"C02", "C01"},
    "nogroup": {"C02"}, "unserved": {"C02"}, "dsnd": {"C12"}, "drcv": {"C12"}, "ignore": {"C02"},
}
SESSION_COMMANDS = {"deinit", "state", "start", "stop", "setapp", "getapp", "mcast", "rcount"}
NOT_EXIST = 0x11

# Cause of a state change -> property describing that change.
CHANGE = {"start": {"C04"}, "stop": {"C04"}, "setapp": {"C04", "C08"}, "init": {"C05", "C04"}, "deinit": {"C05", "C04"},
          "reset": {"C03"}, "mcast": {"C13", "C04"}, "inband": {"C14"}}


def blame(d, rep):
    cls, kind, why = d["cls"], d["kind"], d["why"]
    whys = set(rep["whys"])
    by_cmds = set().union(*[COMMAND.get(w, set()) for w in whys]) if whys else set()
    by_changes = set().union(*[CHANGE.get(w, set()) for w in whys]) if whys else set()
    stranger = d["h"] >= 0 and d["h"] not in rep["actors"]
    p = set()
    if cls == "dead":
        p |= {"C01"} | by_cmds
        if whys & {"eof", "brk", "qdis", "conn"}:
            p |= {"C17"}
        if whys & {"anc", "and", "ancx"}:
            p |= {"C16"}
        return p
    if cls == "event":
        p |= {"C17"}
        exp, obs = d["exp"], d["obs"]
        if [e[1:] for e in exp if e[0] == 1] != [o[1:] for o in obs if o[0] == 1] and len(exp) == len(obs):
            p |= {"C16"}
        if len(obs) > len(exp) and not whys & {"eof", "brk", "conn", "qdis", "churn"}:
            p |= {"C01"}
        return p
    if cls == "reply":
        return {"C16"}
    if cls == "cap":
        return {"C18"}
    if kind == "framing":
        return {"C15"}
    if kind == "early":
        return {"C02"}
    if cls in ("rsp", "err"):
        if kind in ("missing", "header"):
            p |= {"C02"} | COMMAND.get(why, set())
            if kind == "missing":
                p |= {"C01"}
            if d["exp"] and d["exp"][0] == 0x60:
                p |= {"C03"}
            if d["obs"] and d["obs"][0] == 0x60:
                p |= {"C03"}
        elif kind == "extra":
            p |= {"C02"} | by_cmds
            if cls == "err":
                p |= {"C03"}
            if stranger:
                p |= {"C24"}
        else:
            p |= COMMAND.get(why, set())
            if cls == "err":
                p |= {"C03"}
            if why in SESSION_COMMANDS and NOT_EXIST in (d["exp"][2][:1] + d["obs"][2][:1]):
                p |= {"C04", "C05"}
            if why == "getcore":
                e, o = d["exp"][2], d["obs"][2]
                if state_of(e) != state_of(o):
                    p |= {"C07"}
            if why == "getapp" and (ids_of(d["exp"][2]) & {5, 7} or ids_of(d["obs"][2]) & {5, 7}):
                p |= {"C13"}
        return p
    if cls == "sst":
        p |= {"C06"} | (CHANGE.get(why, set()) if kind != "extra" else by_changes)
        if kind == "extra" and stranger:
            p |= {"C14", "C24"}
        if why == "inband" and kind == "payload":
            p |= {"C14"}
        return p
    if cls == "dst":
        p |= {"C07"}
        c = why if kind != "extra" else None
        if c == "reset" or (kind == "extra" and "reset" in whys):
            p |= {"C03"}
        if c == "conn":
            p |= {"C17"}
        if c == "inband":
            p |= {"C14"}
        if c == "mcast":
            p |= {"C13"}
        if kind == "extra" and stranger:
            p |= {"C24"}
        return p
    if cls == "mcn":
        return {"C13"}
    if cls == "sin":
        if kind in ("missing", "extra", "seq", "header"):
            p |= {"C10"}
            if kind == "missing":
                p |= {"C01"} if stranger else set()
        else:
            p |= {"C11"}
        return p
    if cls == "drv":
        p |= {"C12"}
        if kind == "extra" and stranger:
            p |= {"C24"}
        return p
    if cls in ("dcr", "dts"):
        return {"C12"}
    # An unknown packet, or a packet for nobody.
    return {"C02", "C24"}


def state_of(pl):
    """Value of the device state in a CORE_GET_CONFIG response."""
    i = 2
    while i + 2 < len(pl):
        if pl[i] == 0:
            return pl[i + 2]
        i += 2 + pl[i + 1]
    return None


def ids_of(pl):
    s, i = set(), 2
    while i + 1 < len(pl):
        s.add(pl[i])
        i += 2 + pl[i + 1]
    return s


# In the scripts made for one property, the classes of mismatch that break that property whatever the command.
ALL = {"dead", "rsp", "err", "sst", "dst", "mcn", "sin", "drv", "dcr", "dts", "event", "reply", "other"}
OBS = {
    "C01": {"dead", "rsp", "err", "event"},
    "C02": {"rsp", "err", "other", "sst", "dst"},
    "C03": ALL - {"event", "reply"},
    "C04": {"rsp", "sst"},
    "C05": {"rsp", "sst"},
    "C06": {"sst"},
    "C07": {"dst"},
    "C08": {"rsp"},
    "C09": {"rsp"},
    "C10": {"sin", "rsp"},
    "C11": {"sin"},
    "C12": {"drv", "dcr", "dts"},
    "C13": {"rsp", "mcn", "sst", "dst"},
    "C14": {"sst", "dst", "rsp", "sin"},
    "C15": ALL,
    "C16": {"event", "reply", "sin"},
    "C17": ALL - {"reply"},
    "C18": {"cap"},
    "C22": {"rsp", "err"},
    "C24": ALL - {"reply"},
}


def violated(rep, tag):
    """Properties broken by a rejected trace; `tag`: the property its script was made for, if any."""
    p = set()
    for d in rep["diffs"]:
        p |= blame(d, rep)
        if tag and d["cls"] in OBS.get(tag, set()):
            p.add(tag)
        # Without a usable capture directory everything must work all the same.
        if rep["id"].startswith("c18-unusable") and d["cls"] in ("dead", "rsp", "event", "cap"):
            p.add("C18")
    return p
