"""Canonical tagged values shared by the drivers (see spec/common/Attr.tla)."""
class Opaque:
    pass
def dec1(x):
    t, b = x[:2], x[2:]
    if t == "s:": return b
    if t == "i:": return int(b)
    if t == "f:": return float(b)
    if t == "b:": return b == "true"
    if t == "y:": return b.encode()
    if t == "Y:": return b"\xff\xfe"
    if t == "n:": return None
    if b == "dict": return {"a": 1}
    if b == "list": return ["a"]
    if b == "tuple": return ("a",)
    return Opaque()
def dec(v, tup=False):
    if v and v[0] == "L":
        x = [dec1(y) for y in v[1:]]
        return tuple(x) if tup else x
    return dec1(v[0])
def enc1(v):
    if v is None: return "n:"
    if isinstance(v, bool): return "b:true" if v else "b:false"
    if isinstance(v, int): return f"i:{v}"
    if isinstance(v, float): return f"f:{v!r}"
    if isinstance(v, str): return "s:" + v
    if isinstance(v, bytes): return "y:" + v.decode("utf8", "replace")
    return "O:" + type(v).__name__
def enc(v):
    if isinstance(v, tuple): return ["L"] + [enc1(x) for x in v]
    if isinstance(v, list): return ["M"] + [enc1(x) for x in v]      # a mutable list was stored
    return [enc1(v)]
def enckey(k):
    return "s:" + k if isinstance(k, str) else enc1(k)
def encmap(m):
    return [[enckey(k), enc(v)] for k, v in (m or {}).items()]

def rnd_val(r, invalid=0.2, strs=("", "a", "abc", "abcdef", "xyzxyzxyz", "é", "日本語テキ", "0123456789" * 3)):
    def sc():
        return r.choice([lambda: "s:" + r.choice(strs), lambda: f"i:{r.choice([0, 1, -1, 5, 2**40, -2**63])}",
                         lambda: "b:" + r.choice(["true", "false"]), lambda: f"f:{r.choice([0.0, 1.5, -2.25, 1e300])!r}",
                         lambda: "y:" + r.choice(strs)])()
    x = r.random()
    if x < invalid * 0.6:
        return [r.choice(["n:", "O:obj", "O:dict", "Y:"])]
    if x < invalid:
        els = [sc() for _ in range(r.randint(1, 3))]
        els.insert(r.randint(0, len(els)), r.choice(["O:obj", "O:dict", "O:list", "O:tuple", sc(), "n:", "Y:"]))
        return ["L"] + els
    if x < invalid + (1 - invalid) * 0.35:
        t = r.choice("sibf")
        els = []
        while len(els) < r.choice([0, 1, 2, 4]):
            e = sc()
            if e[0] == t or (t == "s" and e[0] == "y"): els.append(e)
            elif r.random() < 0.1: els.append("n:")
        return ["L"] + els
    return [sc()]
def rnd_kv(r, n=None, keys="abcdefgh", invalid=0.2):
    out = []; seen = set()
    for _ in range(r.choice([0, 1, 1, 2, 3, 5]) if n is None else n):
        k = "s:" + r.choice(keys) if r.random() > 0.08 * (invalid > 0) else r.choice(["s:", "i:5", "n:", "b:true", "f:1.5"])
        if k not in seen:
            seen.add(k); out.append([k, rnd_val(r, invalid)])
    return out
def mkdict(kv, r=None):
    return {(k[2:] if k[:2] == "s:" else dec1(k)): dec(v, r is not None and r.random() < 0.3) for k, v in kv}
def spoil(d):
    """The caller changes its own objects after handing them over."""
    for v in d.values():
        if isinstance(v, list):
            v.append("spoiled")
            v[:0] = [42]
    d["spoiled"] = True
