"""Driver: constant product curves, containers of them, and the optimizers that arbitrage them."""
import warnings
warnings.filterwarnings("ignore")
from common import *
import numpy as np
import pandas as pd
from carbon.tools.cpc import ConstantProductCurve as C, CPCContainer, CPCInverter, Pair
from carbon.tools.optimizer import CPCArbOptimizer as O

REFUSED = (ValueError, AssertionError, ZeroDivisionError, TypeError)


def opt(x):
    return None if x == "None" else num(x)


def fl(x):
    f = Fraction(x)
    return float(f)


def curve(c):
    if not isinstance(c, C):
        raise NotAValue(f"not a curve: {type(c).__name__}")
    t = c.params.get("exchange", "-")
    return {"k": rat(c.k), "x": rat(c.x), "xa": rat(c.x_act), "ya": rat(c.y_act), "tx": string(c.tknx), "ty": string(c.tkny),
            "cid": str(c.cid), "fee": ratn(c.fee), "constr": string(c.constr), "ex": string(t),
            "par": json.dumps({k: v for k, v in c.params.items() if k != "traded"}, sort_keys=True, default=str),
            "done": json.dumps(c.params.get("traded", None), sort_keys=True, default=str)}


def usable(bound, now):
    """a bound, unless there is none, or it is nothing but rounding"""
    return bound if bound and 1e-12 < bound / now < 1e12 else now


def state(cc):
    return [curve(c) for c in cc]


class Run:
    def __init__(self, emit):
        self.emit = emit
        self.cc = CPCContainer()
        self.n = 0
        self.worth = {}

    # ---- making curves
    def make(self, a, ev):
        self.n += 1
        h = a["how"]
        kw = {"pair": f'{a["b"]}/{a["q"]}', "fee": opt(a["fee"]), "cid": f"c{self.n}" if a["named"] or h == "uv3" else None, "descr": f"d{self.n}"}
        if a["params"]:
            kw["params"] = {"exchange": "ex", "a": {"b": 7}}
        k, x, y, p = (fl(a[z]) for z in ("k", "x", "y", "p"))
        xa, ya = (None if a[z] == "None" else fl(a[z]) for z in ("xa", "ya"))
        args = {"k": rat(k), "x": rat(x), "y": rat(y), "p": rat(p), "xa": ratn(xa), "ya": ratn(ya)}
        act = {"x_act": xa, "y_act": ya}
        must = True
        if h == "kx":
            f = lambda: C.from_kx(k, x, **act, **kw)
        elif h == "ky":
            f = lambda: C.from_ky(k, y, **act, **kw)
        elif h == "xy":
            f = lambda: C.from_xy(x, y, **act, **kw)
        elif h == "pk":
            f = lambda: C.from_pk(p, k, **act, **kw)
        elif h == "px":
            f = lambda: C.from_px(p, x, **act, **kw)
        elif h == "py":
            f = lambda: C.from_py(p, y, **act, **kw)
        elif h == "plain":
            f = lambda: C(k=k, x=x, **act, **kw)
        elif h == "pkpp":
            lo, hi = (None if a[z] == "None" else fl(a[z]) for z in ("pmin", "pmax"))
            args.update(pmin=ratn(lo), pmax=ratn(hi))
            f = lambda: C.from_pkpp(p, k, lo, hi, **kw)
        elif h == "uv2":
            g = {"k": k, "x_tknb": x, "y_tknq": y}
            s = a["skip"]
            for z in {"k": ["k"], "x": ["x_tknb"], "y": ["y_tknq"], "none": [], "two": ["k", "y_tknq"]}[s]:
                g[z] = None
            args["skip"] = s
            if a["miss"] != "none":
                kw[a["miss"]] = None
            must = a["miss"] == "none" and s in ("k", "x", "y")
            f = lambda: C.from_univ2(**g, **kw)
        elif h == "uv3":
            L, lo, hi = fl(a["L"]), fl(a["pmin"]), fl(a["pmax"])
            args.update(L=rat(L), pmin=rat(lo), pmax=rat(hi))
            must = lo < p < hi
            f = lambda: C.from_univ3(p, L, lo, hi, **kw)
        elif h == "carb":
            sell, m = a["sell"], a["miss"]
            yint = fl(a["yint"])
            y = fl(Fraction(a["yf"]) * Fraction(a["yint"]))
            pa, pb = fl(a["pa"]), fl(a["pb"])
            must = 0 <= y <= yint and pa >= pb and m == "none"
            g = {"yint": yint, "y": y, "tkny": sell}
            if a["ab"] and pa > pb:
                A, B = pa ** 0.5 - pb ** 0.5, pb ** 0.5
                g.update(A=A, B=B)
                args.update(A=rat(A), B=rat(B), ab=True)
                if m in ("pa", "A"):
                    del g["B" if m == "pa" else "A"]
            else:
                if a["flip"]:                 # in the quotation of the pair
                    g["isdydx"] = False
                    if sell == a["b"]:
                        pa, pb = 1 / pa, 1 / pb
                g.update(pa=pa, pb=pb)
                args.update(pa=rat(pa), pb=rat(pb), ab=False, flip=a["flip"])
                if m in ("pa", "A"):
                    del g["pb" if m == "pa" else "pa"]
            if m == "both":
                g.update(pa=pa, pb=pb, A=0.1, B=1.0)
            elif m == "pair":
                kw["pair"] = None
            elif m == "tkny":
                g["tkny"] = None
            elif m == "foreign":
                g["tkny"] = "XYZ"
            elif m == "yint":
                g["yint"] = None
            args.update(yint=rat(yint), y=rat(y), sell=sell)
            f = lambda: C.from_carbon(**g, **kw)
        ev.update(how=h, a=args, b=a["b"], q=a["q"], fee=ratn(kw["fee"]), cid=str(kw["cid"]), ex="ex" if a["params"] else "-", must=must)
        c = f()
        d = {"exchange": "ex"} if a["params"] else {}
        if c.P("exchange", "-") != d.get("exchange", "-") or c.P("a:b", 1) != (7 if d else 1) or c.P("a:zz:c", "q") != "q":
            raise NotAValue("P")
        return c

    def put(self, c, into):
        cc = self.cc
        if into == "iadd":
            cc += c
        elif into == "add":
            if cc.add(c) is not cc:
                raise NotAValue("add")
        elif into == "list":
            cc += [c]
        elif into == "gen":
            cc.add(x for x in [c])
        elif into == "inv":
            cc.add(CPCInverter(c))
        elif into == "ctor":
            cc = CPCContainer(CPCInverter.wrap(list(cc) + [c]))
        else:
            cc.add(c)
            cc = CPCContainer.from_dicts(cc.asdicts()) if into == "dicts" else CPCContainer.from_df(cc.asdf())
        self.cc = cc

    def new(self, a, into, op="new"):
        ev = {"op": op, "wf": True}
        try:
            c = self.make(a, ev)
        except REFUSED as e:
            ev["ok"] = False
        else:
            ev.update(ok=True, c=curve(c))
            self.put(c, into)
            ev.update(cs=state(self.cc))
        self.emit(ev)

    # ---- one curve
    def pick(self, i):
        return i % len(self.cc)

    def exec(self, op):
        i = self.pick(op["i"])
        c = self.cc[i]
        w = CPCInverter(c) if op["wrap"] else c
        f, side = fl(op["f"]), op["side"]
        base = {"act": w.x_act if side == "x" else w.y_act, "virtual": w.x if side == "x" else w.y,
                "max": ((w.x_max or 2 * w.x) - w.x) if side == "x" else ((w.y_max or 2 * w.y) - w.y),
                "other": (w.y_act / w.p) if side == "x" else (w.x_act * w.p)}[op["of"]]
        d = f * base
        ev = {"op": "exec", "wf": True, "i": i + 1, "d": rat(d), "side": side, "wrap": op["wrap"], "ignore": op["ignore"], "both": op["both"]}
        kw = {"d" + side: d}
        if op["both"]:
            kw = {"dx": 0, "dy": 0}
        if op["ignore"]:
            kw["ignorebounds"] = True
        try:
            r = w.execute(**kw)
        except REFUSED as e:
            ev.update(ok=False, cs=state(self.cc))
        else:
            if op["wrap"]:
                if not isinstance(r, CPCInverter):
                    raise NotAValue("not an inverter")
                r = r.curve
            if r is c:
                raise NotAValue("same object")
            ev.update(ok=True, before=state(self.cc))
            if r.x_act >= 0 and r.y_act >= 0 and 1e-7 < r.x / c.x < 1e7:      # curves beyond their bounds are not used further
                cs = list(self.cc)
                cs[i] = r
                self.cc = CPCContainer(cs)
                ev["kept"] = True
            else:
                ev["kept"] = False
            ev.update(c=curve(r), cs=state(self.cc))
        self.emit(ev)

    def fn(self, op):
        i = self.pick(op["i"])
        c = self.cc[i]
        w = CPCInverter(c) if op["wrap"] else c
        fn = op["fn"]
        f = None if op["f"] == "None" else fl(op["f"])
        units = False
        if fn in ("xyfromp", "dxdyfromp"):
            b = usable({"now": w.p, "min": w.p_min, "max": w.p_max}[op["at"]], w.p)
            v = None if f is None else b * f
            kw = {}
            if op["units"]:
                units = kw["withunits"] = True
            if op["ignore"]:
                kw["ignorebounds"] = True
            r = getattr(w, fn + "_f")(v, **kw)
            res = [rat(z) for z in r[:3]]
            un = [string(z) for z in r[3:]]
            if op["units"] is False and len(r) != 3:
                raise NotAValue("length")
        else:
            a = fn[-3] if fn[-4] != "d" else fn[-4:-2]
            ax = {"yfromx": "x", "xfromy": "y", "dyfromdx": "x", "dxfromdy": "y"}[fn]
            b = {"now": getattr(w, ax), "min": getattr(w, ax + "_min"), "max": getattr(w, ax + "_max")}[op["at"]]
            b = usable(b, getattr(w, ax))
            v = b * (1 if f is None else f)
            if fn.startswith("d"):
                v = v - getattr(w, ax)
            kw = {"ignorebounds": True} if op["ignore"] else {}
            res = [ratn(getattr(w, fn + "_f")(v, **kw))]
            un = []
        self.emit({"op": "fn", "wf": True, "i": i + 1, "fn": fn, "v": ratn(v), "wrap": op["wrap"], "ignore": op["ignore"], "res": res, "units": units, "un": un,
                   "cs": state(self.cc)})

    def attrs(self, op):
        i = self.pick(op["i"])
        c = self.cc[i]
        w = CPCInverter(c) if op["wrap"] else c
        ev = {"op": "attrs", "wf": True, "i": i + 1, "wrap": op["wrap"], "cs": state(self.cc)}
        ev["a"] = {n: ratn(getattr(w, n)) for n in ("x", "y", "k", "p", "x_act", "y_act", "x_min", "x_max", "y_min", "y_max", "p_min", "p_max")}
        ev["s"] = [string(z) for z in (w.tknx, w.tkny, w.tknb, w.tknq, w.pair, w.tknxp, w.tknyp, w.tknbp, w.tknqp, w.pairp, w.p_convention())]
        po = w.pairo
        ev["cid"] = str(w.cid)
        ev["po"] = [string(z) for z in (po.tknb, po.tknq, po.pair, po.pairr, po.primary, po.secondary, po.tknx, po.tkny, po.other(po.tknb), po.other(po.tknq))]
        ev["prim"] = boolean(po.isprimary)
        ev["pp"] = rat(po.pp(w.p))
        if not op["wrap"]:
            m = fl(op["mult"])
            t = c.tvl(incltkn=True, mult=m)
            if t[1] != c.tknq or t[2] != m or c.tvl("XYZ", raiseonerror=False) is not None:
                raise NotAValue("tvl")
            try:
                c.tvl("XYZ")
                raise NotAValue("tvl")
            except ValueError:
                pass
            ev["q"] = {"kbar": rat(c.kbar), "pp": rat(c.pp), "tvlq": rat(c.tvl(mult=m)), "tvlb": rat(c.tvl(c.tknb, mult=m)), "tvl": rat(t[0]), "mult": rat(m),
                       "dxmin": rat(c.dx_min), "dymin": rat(c.dy_min), "dxmax": ratn(c.dx_max), "dymax": ratn(c.dy_max)}
            ev["at"] = boolean(c.at_boundary)
            if not (c.at_boundary == (c.at_xmin or c.at_xmax) and c.at_ymax == c.at_xmin and c.at_ymin == c.at_xmax):
                raise NotAValue("at_boundary")
        self.emit(ev)

    # ---- the container
    def pairfrom(self, op, n=0):
        if op["member"]:
            c = self.cc[self.pick(op["ix"][n])]
            t = (c.tknb, c.tknq)
            return t if op["flag2"] else t[::-1]
        return tuple(op["two"])

    def which(self, op):
        """the pairs to be analysed"""
        if op["asis"] or not len(self.cc):
            ps = [self.pairfrom(op, j) for j in range(2)] if len(self.cc) else []
            ps = [(a, b) for a, b in ps if a != b]
            if ps and any(self.cc.bypair(f"{a}/{b}", ascc=False) for a, b in ps):
                return {"pairs": [f"{a}/{b}" for a, b in ps]}, [list(x) for x in ps]
        return {}, [["*", "*"]]

    def ask(self, op):
        cc, q = self.cc, op["q"]
        ev = {"op": "ask", "wf": True, "q": q}
        ids = lambda r: [str(c.cid) for c in r]
        flag, flag2 = op["flag"], op["flag2"]
        t, u = op["t"], op["u"]
        how = {}
        if op["asis"]:
            how = {"ascc": False} if flag2 else {"asgenerator": True}
        kind = tuple if how == {"ascc": False} else CPCContainer if not how else None
        cur = lambda r: r if kind is None or isinstance(r, kind) else self.bad("kind")
        if q == "cids":
            r = cc.cids()
            if cc.cids(asset=True) != set(r) or len(cc) != len(r):
                self.bad("cids")
            ev["res"] = [str(x) for x in r]
        elif q == "tokens":
            ev["res"] = sorted(string(x) for x in cc.tokens())
            if cc.tokens_s() != ",".join(ev["res"]):
                self.bad("tokens_s")
        elif q in ("pairs", "pairs0"):
            ev["res"] = sorted(string(x) for x in cc.pairs(standardize=q == "pairs"))
        elif q == "tknxs":
            ev["res"] = sorted(cc.tknxs())
            if sorted(set(cc.tknxl())) != ev["res"] or len(cc.tknxl()) != len(cc):
                self.bad("tknxl")
        elif q == "tknys":
            ev["res"] = sorted(cc.tknys())
            if sorted(set(cc.tknyl())) != ev["res"] or len(cc.tknyl()) != len(cc):
                self.bad("tknyl")
        elif q == "bypair":
            b, k = self.pairfrom(op)
            if b == k:
                return
            f = cc.bypair if flag else cc.bp
            ev.update(b=b, k=k, directed=flag, res=ids(cur(f(f"{b}/{k}", directed=flag, **how))))
        elif q == "bypairs":
            ps = [self.pairfrom(op, j) for j in range(2)]
            if any(a == b for a, b in ps):
                return
            ss = [f"{a}/{b}" for a, b in ps]
            arg = ", ".join(ss) if flag2 else ss
            ev.update(ps=[list(x) for x in ps], directed=flag, res=ids(cur(cc.bypairs(arg, directed=flag, **how))))
        elif q in ("bytknx", "bytkny"):
            ev.update(t=t[:1], res=ids(cur(getattr(cc, q)(t[0], **how))))
        elif q in ("bytknxs", "bytknys"):
            arg = None if flag and flag2 else ", ".join(t) if flag else list(t)
            r = getattr(cc, q)(arg, **({} if arg is None else how))
            ev.update(t=t if arg is not None else ["*"], res=ids(r if arg is None else cur(r)))
        elif q == "bycids":
            inc = None if flag else [self.cc[self.pick(x)].cid for x in op["ix"]]
            exc = None if flag2 else [self.cc[self.pick(op["ix"][0])].cid]
            ev.update(inc=["*"] if inc is None else [str(x) for x in inc], exc=[] if exc is None else [str(x) for x in exc],
                      res=ids(cur(cc.bycids(inc, exclude=exc, **how))))
        elif q == "bycid":
            c = self.cc[self.pick(op["ix"][0])]
            r = cc.bycid(c.cid if flag else "nobody")
            ev.update(cid=str(c.cid) if flag else "nobody", res=[] if r is None else [str(r.cid)])
        elif q == "fp":
            cond = {op["cond"]: ", ".join(t) if flag2 else list(t)}
            if op["cond2"] != "none":
                cond[op["cond2"] + ("_1" if op["cond2"] == op["cond"] else "")] = set(u)
            r = cc.filter_pairs(anyall=cc.FP_ALL if flag else cc.FP_ANY, **cond)
            ev.update(conds=[op["cond"], op["cond2"]], t=t, u=u, all=flag, res=sorted(string(x) for x in r))
        elif q == "price":
            b, k = self.pairfrom(op)
            ev.update(b=b, k=k, res=ratn(cc.price(b, k)))
        elif q == "pe":
            b, k = self.pairfrom(op)
            ev.update(b=b, k=k, throws=flag)
            try:
                ev["res"] = ratn(cc.price_estimate(pair=f"{b}/{k}", raiseonerror=flag) if op["asis"] else cc.price_estimate(tknb=b, tknq=k, raiseonerror=flag))
            except ValueError:
                ev["res"] = "raised"
            if ev["res"] != "raised":
                if cc.price_estimate(tknb=b, tknq=k, result=cc.PE_PAIR, raiseonerror=False) != (1 if b == k else f"{b}/{k}"):
                    self.bad("PE_PAIR")
        elif q == "pes":
            ev.update(t=t, u=u, throws=flag, single=flag2)
            try:
                r = cc.price_estimates(tknqs=t, tknbs=u, raiseonerror=flag, unwrapsingle=flag2)
                r = [list(r)] if flag2 and len(t) == 1 else [list(x) for x in r]
                ev["res"] = [[ratn(x) for x in y] for y in r]
            except ValueError:
                ev["res"] = "raised"
            if ev["res"] == "raised":
                ev["res"] = [["raised"]]
        elif q == "table":
            tt = cc.tokentable()
            ev["res"] = [{"t": k, "x": [integer(i) + 1 for i in v.x], "y": [integer(i) + 1 for i in v.y]} for k, v in sorted(tt.items())]
        elif q == "member":
            i = self.pick(op["ix"][0])
            c = cc[i]
            o = C.from_xy(12345.5, 3, pair=c.pair, cid="foreign")
            ev.update(i=i + 1, **{"in": boolean(c in cc), "ix": integer(cc.curveix(c)) + 1, "out": boolean(o in cc), "oix": cc.curveix(o) is None, "res": []})
        elif q in ("dicts", "frame"):
            d = CPCContainer.from_dicts(cc.asdicts()) if q == "dicts" else CPCContainer.from_df(cc.asdf())
            ev["res"] = state(d)
            if not all(a == b for a, b in zip(d, cc)):
                self.bad("not equal")
        elif q == "stats":
            b, k = self.pairfrom(op)
            cs = cc.bypair(f"{b}/{k}", directed=True, ascc=False)
            if not cs:
                return
            r = cc.xystats(cs)
            ev.update(b=b, k=k, res=[[rat(z) for z in (s.mean, s.minv, s.maxv, s.sdev)] for s in r])
        elif q == "analysis":
            tg = [cc.AT_PRICES, cc.AT_MAX, cc.AT_MIN, cc.AT_PIVOTBQ, cc.AT_PIVOTXY, cc.AT_PIVOTBQS, cc.AT_PIVOTXYS, cc.AT_SD, cc.AT_SDPC][op["ix"][0] % 9]
            kw, ev["ps"] = self.which(op)
            if flag and tg not in (cc.AT_PIVOTXY, cc.AT_PIVOTXYS):
                kw["pretty"] = True
            if len(cc.bypairs(kw["pairs"]) if "pairs" in kw else cc) == 0:
                return
            df = cc.pairs_analysis(target=tg, **kw)
            z = lambda v: 0 if isinstance(v, str) and v == "" and "pretty" in kw else v
            ev.update(target=tg, res=[[string(b), string(k), ratn(z(df.loc[b, k]))] for b in df.index for k in df.columns])
        elif q == "pricelist":
            kw, ev["ps"] = self.which(op)
            df = cc.pairs_analysis(target=cc.AT_PRICELIST, **kw)
            ev["res"] = [[string(i[0]), string(i[1]), str(i[2]), rat(r["p"]), rat(r["pp"]), string(r["pair"]), string(r["primary"])] for i, r in df.iterrows()]
        elif q == "plaggr":
            kw, ev["ps"] = self.which(op)
            df = cc.pairs_analysis(target=cc.AT_PLAGG, **kw)
            ev["res"] = [[string(i[0]), string(i[1]), string(r[("primary", "first")])] + [ratn(r[("pp", f)]) for f in ("mean", "count", "min", "max", "rangepc100", "sdpc100", "herfindahl")]
                         for i, r in df.iterrows()]
        elif q == "listed":
            kw, ev["ps"] = self.which(op)
            if flag:
                lst = cc.pairs_analysis(target=cc.AT_LIST, **kw)
            else:
                df = cc.pairs_analysis(target=cc.AT_LISTDF, **kw)
                lst = list(df.itertuples(index=False, name=None))
                if list(df.columns) != ["tknx", "tkny", "tknb", "tknq", "pair", "primary", "isprimary", "p", "pp", "x", "xa", "y", "ya", "cid"]:
                    self.bad("columns")
            ev["res"] = [[string(v) for v in r[:6]] + [boolean(r[6])] + [rat(v) for v in r[7:13]] + [str(r[13])] for r in lst]
        elif q == "pedata":
            b, k = self.pairfrom(op)
            if b == k:
                return
            ev.update(b=b, k=k)
            ev["res"] = [[str(c.cid), rat(x), rat(y)] for c, x, y in cc.price_estimate(tknb=b, tknq=k, result=cc.PE_CURVES, raiseonerror=False)]
            d = cc.price_estimate(tknb=b, tknq=k, result=cc.PE_DATA, raiseonerror=False)
            ev["data"] = [] if d is None else [[rat(x), rat(y)] for x, y in zip(*d)]
        elif q == "volumes":
            df = cc.pairs_analysis(target=cc.AT_VOLUMES)
            ev["res"] = [[string(i[0]), str(i[1]), rat(r["amtv"]), rat(r["amt"])] for i, r in df.iterrows()]
            lst = cc.pairs_analysis(target=cc.AT_LIST)
            if sorted(str(x[-1]) for x in lst) != sorted(str(c.cid) for c in cc):
                self.bad("list")
        ev["cs"] = state(cc)
        self.emit(ev)

    def bad(self, what):
        raise NotAValue(what)

    # ---- optimizers
    def market(self, op):
        self.cc = CPCContainer()
        self.emit({"op": "reset", "wf": True, "kind": op["kind"]})
        self.worth = {}
        for a in op["cs"]:
            self.new(a, "iadd")
        self.worth = op["w"] if "w" in op else {}

    def opt(self, op):
        cc = self.cc
        if len(cc) == 0:
            return
        o = O(cc)
        toks = sorted(cc.tokens())
        how = op["how"]
        ev = {"op": "opt", "wf": True, "how": how, "before": state(cc)}
        if how == "simple":
            c = cc[self.pick(op["i"])]
            sub = cc.bypair(c.pair)
            tgt = c.tknx if op["pstart"] else c.tkny
            ev.update(target=tgt, sub=[str(x.cid) for x in sub])
            ev["cids"] = ev["sub"]
            try:
                r = O(sub).simple_optimizer(tgt)
            except ValueError as e:
                if "different signs" not in str(e):
                    raise
                ev.update(raised=True, adopted=False, cs=state(cc))
                self.emit(ev)
                return
            ev.update(err=boolean(r.is_error), raised=False)
            if not r.is_error:
                ev.update(p=rat(r.p_optimal), res=rat(r.result), tx=string(r.tknx), ty=string(r.tkny), dx=[rat(z) for z in r.dxvalues], dy=[rat(z) for z in r.dyvalues],
                          cids=[str(x.cid) for x in r.curves], sum=[rat(z) for z in r.dxdy_sum], valx=rat(r.dxdy_valx), valy=rat(r.dxdy_valy))
                self.ti(r, ev)
        else:
            tgt = toks[op["i"] % len(toks)]
            others = [t for t in toks if t != tgt]
            ev.update(target=tgt, maxiter=op["maxiter"], pstart=op["pstart"])
            params = {}
            if op["pstart"]:
                ps = {t: WORTH[t] / WORTH[tgt] for t in others}
                params["pstart"] = pd.DataFrame({tgt: ps}) if op["framed"] else ps
            if op["maxiter"] and how == "margp":
                params["maxiter"] = op["maxiter"]
            try:
                m = o.margp_optimizer(tgt, result=o.MO_MINIMAL if how == "minimal" else None, params=params or None)
                ev["raised"] = False
            except Exception as e:
                if type(e) is Exception and "price estimates not found" in str(e):
                    ev.update(raised=True, err=True, cs=state(cc))
                    self.emit(ev)
                    return
                raise
            ev["err"] = boolean(m.is_error)
            ev["pr"] = {}
            if not m.is_error:
                ev["pr"] = {**{t: rat(z) for t, z in zip(m.tokens_t, m.p_optimal_t)}, tgt: "1"}
                if set(m.tokens_t) != set(others):
                    self.bad("tokens_t")
            if how == "convex":
                r = o.nofees_optimizer(tgt, solver="ECOS")
                ev["cerr"] = boolean(r.is_error)
                if not r.is_error:
                    ev.update(res=rat(r.result), dx=[rat(z) for z in r.dxvalues], dy=[rat(z) for z in r.dyvalues])
            elif not m.is_error:
                ev.update(res=rat(m.result), dt={t: rat(z) for t, z in zip(m.tokens_t, m.dtokens_t)}, iters=integer(m.n_iterations))
                if how == "margp":
                    if any(m.p_optimal[t] != z for t, z in zip(m.tokens_t, m.p_optimal_t)) or set(m.p_optimal) != set(others):
                        self.bad("p_optimal")
                    if any(m.dtokens[t] != z for t, z in zip(m.tokens_t, m.dtokens_t)) or m.dtokens[tgt] != m.result or set(m.dtokens) != set(toks):
                        self.bad("dtokens")
                    ev.update(dx=[rat(z) for z in m.dxvalues], dy=[rat(z) for z in m.dyvalues], price=rat(m.price(toks[0], toks[-1])), ptoks=[toks[0], toks[-1]])
                    d = m.dxdyvalues(asdict=True)
                    if len(d) != len(cc) or any(tuple(d[c.cid]) != tuple(z) for c, z in zip(cc, m.dxdyvalues())):
                        self.bad("dxdyvalues")
                    n = m.curves_new
                    ev["fresh"] = n is not None
                    if n is not None:
                        ev["next"] = state(n)
                    self.ti(m, ev)
                    if n is not None and op["adopt"]:
                        self.cc = CPCContainer(c for c in n)
        ev["adopted"] = self.cc is not cc
        ev["cs"] = state(self.cc)
        self.emit(ev)

    def ti(self, r, ev):
        try:
            t = r.trade_instructions()
        except ValueError as e:
            ev["tiok"] = False
            return
        ev["tiok"] = True
        ev["ti"] = [{"cid": string(x.cid), "tin": string(x.tknin), "ain": rat(x.amtin), "tout": string(x.tknout), "aout": rat(x.amtout), "empty": boolean(x.is_empty)} for x in t]
        for x in t:
            if not x.is_empty and not (abs(x.p * x.pr - 1) < 1e-9 and x.pp == (x.p, x.pr) and x.curve is not None and str(x.curve.cid) == x.cid):
                self.bad("instruction")
        d = r.trade_instructions(ti_format=O.TIF_DICTS)
        if [(z["cid"], z["tknin"], z["amtin"], z["tknout"], z["amtout"]) for z in d] != [(x.cid, x.tknin, x.amtin, x.tknout, x.amtout) for x in t]:
            self.bad("dicts")
        df = r.trade_instructions(ti_format=O.TIF_DFAGGR)
        ev["tot"] = [] if len(t) == 0 else [{"t": string(k), "net": rat(df.loc["TOTAL NET", k]), "in": rat(df.loc["AMMIn", k]), "out": rat(df.loc["AMMOut", k])} for k in df.columns]
        raw = r.trade_instructions(ti_format=O.TIF_DFRAW)
        pr = r.trade_instructions(ti_format=O.TIF_DFP)
        if len(raw) != len(t) or len(pr) != len(t):
            self.bad("frame")


WORTH = {"ETH-6Cc2": 2000, "USDC-eB48": 1, "DAI-1d0F": 1, "WBTC-C599": 30000, "LINK-86CA": 7, "AAVE-DaE9": 70, "USDC-1130": 1, "SHIB-C4cE": 0.00001}


def run(plan, emit):
    r = Run(emit)
    for op in plan["ops"]:
        k = op["op"]
        if k == "new":
            r.new(op["c"], op["into"])
        elif k == "market":
            r.market(op)
        elif len(r.cc) == 0:
            continue
        else:
            getattr(r, k)(op)


if __name__ == "__main__":
    main(run, limit=60)
