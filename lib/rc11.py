"""Independent check of a witness execution of the weak-memory encoding: the C++20 rules written out over explicit relations
([intro.races], [atomics.order]); nothing of this is shared with the encoder (engine/weak_enc.cpp)."""
REL = (5, 6, 7); ACQ = (4, 6, 7); SC = 7      # llvm::AtomicOrdering; 0 plain, 2 monotonic
def closure(n, rel):
    r = [0] * n
    for a, b in rel: r[a] |= 1 << b
    for k in range(n):
        m = 1 << k
        for i in range(n):
            if r[i] & m: r[i] |= r[k]
    return r
def has(r, a, b): return bool(r[a] >> b & 1)
def check(w, kind, threads):
    """returns None if the execution is consistent and shows what it claims, else what is wrong"""
    ev = w["events"]; n = len(ev); R = lambda e: e["type"] in "RU"; W = lambda e: e["type"] in "WU"
    sb = []
    for t in range(threads):
        mine = sorted((i for i in range(n) if ev[i]["th"] == t), key=lambda i: ev[i]["pos"])
        if [ev[i]["pos"] for i in mine] != list(range(len(mine))): return "thread %d has a gap" % t
        sb += [(mine[i], mine[j]) for i in range(len(mine)) for j in range(i + 1, len(mine))]
    roots = [i for i in range(n) if ev[i]["type"] == "?"]; ends = {ev[i]["th"]: i for i in range(n) if ev[i]["type"] == "E"}
    sync = [(r, x) for r in roots for x in range(n) if x not in roots]      # the setup happens before everything
    for i in range(n):
        if ev[i]["type"] == "J":
            if ev[i]["joins"] not in ends: return "a thread is joined that does not end"
            sync.append((ends[ev[i]["joins"]], i))
    SB = closure(n, sb); rf = {i: ev[i]["rf"] for i in range(n) if R(ev[i])}
    init = {int(k): v for k, v in w["init"].items()}
    for i, f in rf.items():
        e = ev[i]
        if f == -1:
            if e["loc"] not in init or init[e["loc"]] != e["rval"]: return "event %d reads another initial value" % i
        elif f < 0: return "event %d reads from nothing" % i
        else:
            s = ev[f]
            if not W(s) or s["loc"] != e["loc"] or s["bytes"] != e["bytes"] or f == i: return "event %d reads from an event that does not write there" % i
            if not s["poison"] and s["wval"] != e["rval"]: return "event %d reads a value that was not written" % i
    for t in range(n):
        for (a, b) in ():
            pass
    if any(has(c, i, i) for c in [closure(n, sb + [(f, i) for i, f in rf.items() if f >= 0])] for i in range(n)): return "sb and rf are cyclic"
    # modification order
    locs = {}
    for i in range(n):
        if W(ev[i]): locs.setdefault(ev[i]["loc"], []).append(i)
    pos = {}
    for l, ws in locs.items():
        ws.sort(key=lambda i: ev[i]["mo"])
        if len({ev[i]["mo"] for i in ws}) != len(ws): return "modification order is not total"
        for k, i in enumerate(ws): pos[i] = k + 1
    rpos = {i: (0 if f == -1 else pos[f]) for i, f in rf.items()}
    for i in range(n):
        if ev[i]["type"] == "U" and pos[i] != rpos[i] + 1: return "a read-modify-write does not follow what it reads"
    # synchronizes-with
    def release_heads(x):  # release operations whose release sequence (or fence) contains write x
        out = []; c = x
        while True:
            e = ev[c]
            if e["ord"]:
                if e["ord"] in REL: out.append(c)
                out += [f for f in range(n) if ev[f]["type"] == "F" and ev[f]["ord"] in REL and has(SB, f, c)]
            if e["type"] != "U": break
            f = rf[c]
            if f < 0: break
            c = f
        return out
    sw = []
    for i, f in rf.items():
        if f < 0 or not ev[i]["ord"]: continue
        heads = release_heads(f); tails = ([i] if ev[i]["ord"] in ACQ else []) + [x for x in range(n) if ev[x]["type"] == "F" and ev[x]["ord"] in ACQ and has(SB, i, x)]
        sw += [(h, t) for h in heads for t in tails]
    HB = closure(n, sb + sync + sw)
    if any(has(HB, i, i) for i in range(n)): return "happens-before is cyclic"
    # coherence
    for a in range(n):
        for b in range(n):
            if a == b or not has(HB, a, b) or ev[a]["loc"] != ev[b]["loc"] or not (R(ev[a]) or W(ev[a])) or not (R(ev[b]) or W(ev[b])): continue
            x = pos[a] if W(ev[a]) else rpos[a]
            if R(ev[b]) and x > rpos[b]: return "coherence: event %d reads something older than event %d" % (b, a)
            if W(ev[b]) and x >= pos[b]: return "coherence: event %d is modified before event %d" % (b, a)
    # the order S of sequentially consistent operations
    scs = [i for i in range(n) if ev[i]["ord"] == SC and ev[i]["type"] in "RWUF"]; S = {i: ev[i]["S"] for i in scs}
    if len(set(S.values())) != len(scs): return "S is not total"
    sbhbsb = [(a, d) for a in range(n) for d in range(n) if any(has(SB, a, b) and any(has(HB, b, c) and has(SB, c, d) for c in range(n)) for b in range(n))] if len(scs) > 1 else []
    SHB = closure(n, sb + [(a, b) for a, b in sw if ev[a]["ord"] == SC and ev[b]["ord"] == SC] + sbhbsb)
    for a in scs:
        for b in scs:
            if a != b and has(SHB, a, b) and S[a] > S[b]: return "S contradicts strongly-happens-before"
    acc = [i for i in range(n) if (R(ev[i]) or W(ev[i])) and ev[i]["ord"]]
    fences = [i for i in scs if ev[i]["type"] == "F"]
    for a in acc:
        for b in acc:
            if a == b or ev[a]["loc"] != ev[b]["loc"]: continue
            wa, wb = W(ev[a]), W(ev[b])
            before = (wa and wb and pos[a] < pos[b]) or (wa and R(ev[b]) and pos[a] <= rpos[b] and a != b) or (R(ev[a]) and wb and rpos[a] < pos[b] and a != b) or (R(ev[a]) and R(ev[b]) and rpos[a] < rpos[b])
            if not before: continue
            xs = ([a] if a in S else []) + [x for x in fences if has(HB, x, a)]; ys = ([b] if b in S else []) + [y for y in fences if has(HB, b, y)]
            for x in xs:
                for y in ys:
                    if x != y and S[x] > S[y]: return "S contradicts coherence order of %d and %d" % (a, b)
                    if x == y: return "S contradicts coherence order of %d and %d" % (a, b)
    # the claim
    a, b = w["a"], w["b"]
    if kind == "race":
        if ev[a]["th"] == ev[b]["th"] or ev[a]["loc"] != ev[b]["loc"] or has(HB, a, b) or has(HB, b, a) or not (W(ev[a]) or W(ev[b])) or (ev[a]["ord"] and ev[b]["ord"]): return "the two accesses do not race"
    elif ev[a]["type"] == "V": pass
    elif kind == "memory" and b >= 0:
        if rf.get(a) != b or not ev[b]["poison"]: return "the read is not of memory without a value"
    else: return "nothing is claimed"
    return None
