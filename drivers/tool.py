"""Driver: uses the smaller tools - packed numbers, shared numbers, parameters, Uniswap positions, names, files."""
import math
import operator
import os
import shutil
import tempfile
from common import *


# ------------------------------------------------------------------ packed numbers
def pack(op, st):
    from carbon.helpers import floatint as fi
    cls = getattr(fi, f'CarbonFloatInt{op["one"]}')
    fn = op["fn"]
    x = Fraction(op["x"])
    ev = {"x": str(x), "k": op["k"], "one": op["one"], "fn": fn}
    try:
        if fn == "int":
            r = cls.from_int(int(x))
        elif fn == "float":
            ev["x"] = rat(float(x))
            r = cls.from_float(float(x))
        elif fn == "max":
            r = cls.max(op["k"]) if op["k"] % 2 else cls.max(minus=op["k"])
        elif fn == "min":
            r = cls.min(op["k"])
        else:
            ev["x"] = str(abs(int(x)) % 2 ** 40)
            ev["k"] = op["k"] - 5
            r = cls(abs(int(x)) % 2 ** 40, op["k"] - 5)
    except (AssertionError, ValueError, OverflowError):
        ev["ok"] = False
        return ev
    t = r.astuple
    if not (t == (r.significant, r.exponent) and r.asdict == {"significant": t[0], "exponent": t[1]} and r.asint1 == (r.asint, r.one)
            and r.asdict1 == {**r.asdict, "one_exponent": op["one"]} and r.astuple1 == t + (op["one"],)
            and int(r) == r.asint and float(r) == r.asfloat and int(r.ashex, 16) == r.asint):
        raise NotAValue("packed number")
    ev.update(ok=True, sig=rat(r.significant), exp=integer(r.exponent), asint=rat(r.asint), asfloat=rat(r.asfloat), unit=rat(r.one),
              again=rat(cls.from_int(r.asint).asint))
    return ev


# ------------------------------------------------------------------ shared numbers
BIN = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv, "floordiv": operator.floordiv,
       "mod": operator.mod, "pow": operator.pow, "shl": operator.lshift, "shr": operator.rshift, "and": operator.and_,
       "or": operator.or_, "xor": operator.xor, "divmod": divmod}
INP = {"add": operator.iadd, "sub": operator.isub, "mul": operator.imul, "div": operator.itruediv, "floordiv": operator.ifloordiv,
       "mod": operator.imod, "pow": operator.ipow, "shl": operator.ilshift, "shr": operator.irshift, "and": operator.iand,
       "or": operator.ior, "xor": operator.ixor}
UN = {"neg": operator.neg, "pos": operator.pos, "abs": abs, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}
CMP = {k: getattr(operator, k) for k in ("eq", "ne", "lt", "le", "gt", "ge")}


def plain(v):
    from carbon.helpers.sharedvar import SharedVar
    n = 0
    while isinstance(v, SharedVar):
        v = v.value
        n += 1
        if n > 500:
            raise NotAValue("endless")
    return v


def cell(op, st):
    from carbon.helpers.sharedvar import SharedVar
    vs = st.setdefault("vars", [])
    fn, o = op["fn"], op.get("o", "")
    x = num(op["x"])
    ev = {"fn": fn, "x": rat(x), "xint": isinstance(x, int), "k": op["k"]}
    for f in ("o", "i", "j", "refl", "d", "u", "c"):
        ev[f] = op.get(f, {"o": "", "i": 1, "j": 1, "refl": False, "d": 0, "u": "", "c": ""}[f])
    if vs:
        ev["i"], ev["j"] = (ev["i"] - 1) % len(vs) + 1, (ev["j"] - 1) % len(vs) + 1
        ev["k"] = min(ev["k"], len(vs) + 1)
    i, j = ev["i"] - 1, ev["j"] - 1
    new = None
    ok = True
    try:
        if fn == "new":
            new = SharedVar(x)
        elif fn == "alias":
            new = vs[i]
        elif fn == "assign":
            vs[i] = vs[j]
        elif fn in ("bin", "bin2"):
            a, b = (vs[i], vs[j]) if fn == "bin2" else (x, vs[i]) if ev["refl"] else (vs[i], x)
            new = BIN[o](a, b)
            if o == "divmod":
                new, m = new
                ev["res"] = rat(plain(m))
                if not isinstance(m, SharedVar):
                    raise NotAValue("no shared number")
            if not isinstance(new, SharedVar):
                raise NotAValue("no shared number")
        elif fn in ("inp", "inp2"):
            vs[i] = INP[o](vs[i], vs[j] if fn == "inp2" else x)
            if not isinstance(vs[i], SharedVar):
                raise NotAValue("no shared number")
        elif fn == "set":
            if vs[i].setval(x) is not vs[i]:
                raise NotAValue("setval")
        elif fn == "un":
            new = UN[op["u"]](vs[i]) if op["u"] != "round" else round(vs[i], op["d"])
            if not isinstance(new, SharedVar):
                raise NotAValue("no shared number")
        elif fn in ("cmp", "cmp2"):
            ev["says"] = boolean(CMP[op["c"]](vs[i], vs[j] if fn == "cmp2" else x))
        elif fn == "conv":
            v = vs[i]
            if isinstance(plain(v), int) and not (hex(v) == hex(plain(v)) and oct(v) == oct(plain(v)) and list(range(300))[v if 0 <= plain(v) < 300 else 0] is not None):
                raise NotAValue("conversion")
            if complex(v) != complex(plain(v)):
                raise NotAValue("complex")
            back = eval(repr(v), {"SharedVar": SharedVar})
            ev["conv"] = [rat(int(v)), rat(float(v)), str(Fraction(str(v))), rat(plain(back))]
    except (TypeError, ZeroDivisionError, ValueError, OverflowError):
        ok = False
    if new is not None and ok:
        if ev["k"] > len(vs):
            vs.append(new)
        else:
            vs[ev["k"] - 1] = new
    ids = {}
    ev.update(ok=ok, vals=[rat(plain(v)) for v in vs], ints=[isinstance(plain(v), int) for v in vs],
              ids=[ids.setdefault(v.id, n + 1) for n, v in enumerate(vs)])
    return ev


# ------------------------------------------------------------------ parameters
def param(op, st):
    from carbon.tools.params import Params
    from carbon.tools.tokenscale import TokenScale, TokenScale1
    objs = st.setdefault("objs", [])
    if "scale" not in st:
        st["scale"] = TokenScale()
    fn = op["fn"]
    f = {k: num(v) for k, v in op["f"]}
    g = {k: num(v) for k, v in op["g"]}
    k, v = op["k"], num(op["v"])
    ev = {"fn": fn, "f": {a: rat(b) for a, b in f.items()}, "g": {a: rat(b) for a, b in g.items()}, "k": k, "v": rat(v),
          "withd": op["withd"], "flag": op["flag"], "i": op["i"], "slot": op["slot"], "res": "None", "dict": {}}
    o = objs[op["i"] - 1] if op["i"] else None
    made = None
    ok = True
    try:
        if fn == "new":
            made = Params(**f)
        elif fn in ("construct", "copy"):
            a = o if fn == "copy" else (f or None) if op["flag"] else f
            made = Params.construct(a, defaults=dict(g)) if op["withd"] else Params.construct(a)
        elif fn == "add":
            if o.add(**f) is not o:
                raise NotAValue("add")
        elif fn == "setitem":
            o[k] = v
        elif fn == "set":
            if (o.set(k, v) if op["flag"] else o.set(k, v, allowupdate=False)) is not o:
                raise NotAValue("set")
        elif fn == "getitem":
            ev["res"] = ratn(o[k])
        elif fn == "getattr":
            ev["res"] = rat(getattr(o, k))
        elif fn == "default":
            ev["res"] = ratn(o.get_default(k, raiseonerror=op["flag"]))
        elif fn == "set_default":
            if o.set_default(**f) is not o:
                raise NotAValue("set_default")
        elif fn == "params":
            ev["dict"] = {a: rat(b) for a, b in o.params.items()}
        elif fn == "defaults":
            ev["dict"] = {a: rat(b) for a, b in o.defaults.items()}
        elif fn == "repr":
            r = eval(repr(o), {"Params": Params})
            ev["dict"] = {a: rat(b) for a, b in r.params.items()}
            ev["ddict"] = {a: rat(b) for a, b in (r.defaults or {}).items()}
        elif fn == "scale_new":
            st["scale"] = TokenScale.from_tokenscales(**f) if op["flag"] else TokenScale(dict(f))
        elif fn == "scale_add":
            st["scale"].add_scale(k, v)
        elif fn == "scale":
            ev["res"] = rat(st["scale"](k) if op["flag"] else st["scale"].scale(k))
        elif fn == "scale1":
            ev["res"] = rat(TokenScale1()(k))
    except (KeyError, AttributeError, ValueError):
        ok = False
    if fn in ("new", "construct", "copy"):
        if op["slot"] > len(objs):
            objs.append(made if ok else Params())
        elif ok:
            objs[op["slot"] - 1] = made
    ev.update(ok=ok, now=[{"p": {a: rat(b) for a, b in q._params.items()}, "d": {a: rat(b) for a, b in (q._defaults or {}).items()}} for q in objs])
    return ev


# ------------------------------------------------------------------ Uniswap v3 positions
def uni(op, st):
    from carbon.tools.univ3calc import Univ3Calculator as U
    from carbon.tools.cpc import ConstantProductCurve as CPC
    how, d0, d1 = op["how"], op["d0"], op["d1"]
    sp96, liq, tick, fee = int(op["sp96"]), int(op["liq"]), op["tick"], op["fee"]
    names = ["USDC", "WETH"] if d0 < d1 else ["WETH", "USDC"]
    ev = {f: op[f] for f in ("how", "tick", "sp96", "liq", "fee", "d0", "d1")}
    try:
        if how == "dict":
            u = U.from_dict(dict(token0=U.ADDRDEC[names[0]][0], token1=U.ADDRDEC[names[1]][0], sqrt_price_q96=sp96, tick=tick, liquidity=liq), fee)
        elif how == "known":
            u = U(tkn0=names[0], tkn1=names[1], sp96=sp96, tick=tick, liquidity=liq, fee_const=fee)
        else:
            names = ["T0", "T1"]
            s = str if how == "str" else int
            u = U(tkn0="T0", tkn1="T1", sp96=s(sp96), tick=s(tick), liquidity=s(liq), fee_const=s(fee), tkn0decv=d0, tkn1decv=d1)
    except (AssertionError, ValueError):
        ev["ok"] = False
        return ev
    pa, pb = u.papb
    qa, qb = u.papb_tkn0_per_tkn1
    r0, n0 = u.tkn0reserve(incltoken=True)
    r1, n1 = u.tkn1reserve(incltoken=True)
    t0, m0 = u.tvl(astkn0=True, incltoken=True)
    t1, m1 = u.tvl(incltoken=True)
    if not (u.tvl() == t1 and u.tkn0reserve() == r0 and u.tkn1reserve() == r1 and isinstance(u.info(), str)):
        raise NotAValue("reserves")
    ev.update(ok=True, names=names, pair=string(u.pair), toks=[string(x) for x in (u.tkn0, u.tkn1, n0, n1, m0, m1)], conv=string(u.price_convention),
              p=rat(u.p), q=rat(u.price_tkn0_per_tkn1), pa=rat(pa), pb=rat(pb), qa=rat(qa), qb=rat(qb), raw=[rat(x) for x in u.papb_raw],
              L=rat(u.L), L2=[rat(u.L2), rat(u.k), rat(u.kbar * u.kbar)], r0=rat(r0), r1=rat(r1), t0=rat(t0), t1=rat(t1), ticks=[integer(x) for x in u.tickab],
              f=rat(u.fee), sp=rat(U.sp96_from_price(u._price_f(sp96))), cpc={"ok": False})
    try:
        c = CPC.from_univ3(cid="1", descr="d", **u.cpc_params())
        ev["cpc"] = {"ok": True, "p": rat(c.p), "pair": string(c.pair), "xa": rat(c.x_act), "ya": rat(c.y_act), "k": rat(c.k), "lo": ratn(c.p_min), "hi": ratn(c.p_max), "fee": rat(c.fee)}
    except (AssertionError, ValueError, ZeroDivisionError) as e:
        ev["cpc"]["err"] = repr(e)[:100]
    return ev


# ------------------------------------------------------------------ pairs, versions
def name(op, st):
    from carbon.tools.simplepair import SimplePair as SP
    from carbon.helpers import version as V
    fn, how = op["fn"], op["how"]
    b, q, r = op["b"], op["q"], op["r"]
    ev = {f: op[f] for f in ("fn", "how", "b", "q", "r", "p", "ver", "req", "raise")}
    ev["raising"] = ev.pop("raise")
    try:
        if fn == "pair":
            bn, qn = b["full"], q["full"]
            if how == "str":
                s = SP(f"{bn}/{qn}")
            elif how == "tuple":
                s = SP((bn, qn))
            elif how == "list":
                s = SP([bn, qn])
            elif how == "obj":
                t = SP(f"{bn}/{qn}")
                s = SP(t)
                if s is t:
                    raise NotAValue("no copy")
            elif how == "tokens":
                s = SP.from_tokens(bn, qn)
            elif how == "three":
                s = SP(f"{bn}/{qn}/X")
            elif how == "one":
                s = SP(bn)
            else:
                s = SP(5)
            ev.update(ok=True, toks=[string(x) for x in (s.tknb, s.tknq, s.tknx, s.tkny)], norm=[string(x) for x in (s.tknb_n, s.tknq_n, s.tknx_n, s.tkny_n)],
                      names=[string(x) for x in (s.pair, str(s), s.pairr)], tup=[list(s.pairt), list(s.pairrt)], prim=boolean(s.isprimary),
                      primary=string(s.primary), secondary=string(s.secondary), same=boolean(s == SP(f"{bn}/{qn}")),
                      pp=[ratn(s.primary_price(num(op["p"]))), ratn(s.pp(num(op["p"])))])
        elif fn == "wrap":
            l = [f'{b["full"]}/{q["full"]}', f'{q["full"]}/{r["full"]}', f'{r["full"]}/{b["full"]}']
            w = SP.wrap(l)
            ev.update(ok=True, toks=[[x.tknb, x.tknq] for x in w], back=[string(x) for x in SP.unwrap(w)])
        else:
            s = lambda v: ".".join(str(x) for x in v)
            a = s(op["ver"]) + op["suf"]
            q = (" " if op["suf"] == " " else "") + s(op["req"]) + ("-x" if op["suf"] == "rc1" else "")
            if op["raise"]:
                if V.require_version(q, a) is not None:
                    raise NotAValue("version")
                ev.update(ok=True, says=True)
            else:
                ev.update(ok=True, says=boolean(V.require_version(q, a, raiseonfail=False)))
            ev["parts"] = [V.split_version_str(a), V.split_version_str(q)]
    except (ValueError, TypeError):
        ev["ok"] = False
    except V.VersionRequirementNotMetError:
        ev.update(ok=True, says=False, parts=[V.split_version_str(a), V.split_version_str(q)])
    return ev


# ------------------------------------------------------------------ files
WRAP = "<<{}>>"
TEXT = [None, "hello", "", "two\nlines\n", "{braces}", "tab\tand \\ slash", "x" * 5000]
JSON = [None, {"a": 1, "b": [1, 2.5, None]}, [], "text", {"n": {"m": True}}, "çß€", list(range(500))]
DATA = {"text": TEXT, "json": JSON, "binary": [None] + [t.encode() + b"\x00\xff" for t in TEXT[1:]], "gzjson": JSON, "gztext": TEXT, "wrap": TEXT}
LOADED = dict(DATA, gztext=[None] + [t.encode() for t in TEXT[1:]], wrap=[None] + [WRAP.format(WRAP.format(t)) for t in TEXT[1:]])
KW = {"text": {}, "json": dict(json=True), "binary": dict(binary=True), "gzjson": dict(json=True, compressed=True), "gztext": dict(compressed=True), "wrap": dict(wrapper=WRAP)}


def file(op, st):
    from carbon.helpers import fls
    from carbon.helpers.helpers import listdir
    d = st["dir"]
    fn, mode, nm = op["fn"], op["mode"], op["st"] + op["ex"]
    ev = {"fn": fn, "st": op["st"], "ex": op["ex"], "mode": mode, "c": op["c"], "all": op["all"], "got": 0, "names": []}
    path = None if op["dflt"] else d
    try:
        if fn == "save":
            if op["all"] and not op["dflt"]:
                fls.fsave(DATA[mode][op["c"]], fls.join(d, nm), **KW[mode])
            else:
                fls.fsave(DATA[mode][op["c"]], nm, path, **KW[mode])
        elif fn == "load":
            r = fls.fload(nm, path, quiet=not op["all"], **KW[mode])
            for c in range(1, 7):
                if type(r) is type(LOADED[mode][c]) and r == LOADED[mode][c]:
                    ev["got"] = c
        else:
            ex = op["ex"] or ".json"
            ev["ex"] = ex
            ev["names"] = [string(x) for x in (listdir(d) if op["all"] else listdir(d, ex))]
        ev["ok"] = True
    except FileNotFoundError:
        ev["ok"] = False
    return ev


OPS = {"pack": pack, "cell": cell, "param": param, "uni": uni, "name": name, "file": file}


def run(plan, emit):
    st = {}
    home = os.getcwd()
    try:
        if plan["ops"] and plan["ops"][0]["op"] == "file":
            st["dir"] = tempfile.mkdtemp(prefix="verif-tool-")
            os.chdir(st["dir"])
        for op in plan["ops"]:
            ev = OPS[op["op"]](op, st)
            ev.update(op=op["op"], wf=True)
            emit(ev)
    finally:
        os.chdir(home)
        if "dir" in st:
            shutil.rmtree(st["dir"])


if __name__ == "__main__":
    main(run, limit=10)
