from vals import enc
def encat(a):
    out = []
    for k, v in (a or {}).items():
        e = enc(v)
        if e[0] == "M": e = ["L"] + e[1:]
        out.append([k, e])
    return sorted(out)
