"""Driver: replays histories of a (linked) pair of CarbonOrderUI orders."""
from math import log10
from common import *
from carbon.carbon_order_ui import CarbonOrderUI as O
from carbon.order import Order
from carbon.pair import CarbonPair


def row(o):
    return {
        "tkn": string(o.tkn), "base": string(o.pair.tknb), "quote": string(o.pair.tknq), "B": rat(o.B), "S": rat(o.S),
        "z": rat(o.yint), "y": rat(o.y), "dis": boolean(o.disabled), "lid": str(o.lid), "id": str(o.id),
        "pa": ratn(getattr(o, "pa", None)) if not o.disabled else "None", "pb": ratn(getattr(o, "pb", None)) if not o.disabled else "None",
        "pmin": ratn(o.pmin), "pmax": ratn(o.pmax), "pm": ratn(o.p_marg),
        "A": rat(o.A), "zz": rat(o.z), "tknx": string(o.tknx), "tkny": string(o.tkny),
    }


def guarded(f, *a, **k):
    """(kind, value): value, none or raised"""
    try:
        r = f(*a, **k)
    except Hang:
        raise
    except Exception as e:
        return "raised", type(e).__name__
    return ("none", None) if r is None else ("value", r)


FLD = ("y_old", "y", "dy", "dx", "x", "pmarg_old", "pmarg", "p", "dx/dy", "dy/dx", "y_int", "yint", "yint_old")


def make(pair, a):
    P = CarbonPair(f'{pair["base"]}/{pair["quote"]}').set_decimals(pair["db"], pair["dq"])
    tkn = a["tkn"].lower() if a["lower"] else a["tkn"]
    z, y = num(a["z"]), num(a["y"])
    h = a["how"]
    if h == "prices":
        v = {"pa": num(a["pa"]), "pb": num(a["pb"])}
        f = lambda: O.from_prices(P, tkn, v["pa"], v["pb"], z, y)
    elif h == "BSy":
        v = {"B": num(a["B"]), "S": num(a["S"])}
        f = lambda: O.from_BSy(P, tkn, v["B"], v["S"], z, y)
    elif h == "Qxy":
        tkn = a["tkn"]
        v = {"Q": num(a["Q"]), "xint": num(a["xint"])}
        f = lambda: O.from_Qxy(P, tkn, v["Q"], v["xint"], z, y)
    else:
        v = {"B": num(a["B"]), "S": num(a["S"])}
        tkn = a["tkn"]
        f = lambda: O.from_order(Order(B=v["B"], S=v["S"], y_int=z, _y=y, pair=P, tkn=tkn, id=7, linked_to_id=7))
    arg = {k: rat(x) for k, x in v.items()}
    arg.update(how=h, z=rat(z), y=rat(y), tkn=a["tkn"], base=pair["base"], quote=pair["quote"])
    k, o = guarded(f)
    return (o if k == "value" else None), arg


def run(plan, emit):
    os_ = []
    pair = plan["pair"]
    for op in plan["ops"]:
        ev = {"op": op["op"], "wf": True}
        kind = op["op"]
        if kind == "make":
            o, ev["a"] = make(pair, op["a"])
            ev["ok"] = o is not None
            if o is not None:
                if o.id is None:
                    o.set_id(len(os_))
                os_.append(o)
                if len(os_) == 2 and plan["linked"]:
                    os_[0].set_linked(os_[1])
                    os_[1].set_linked(os_[0])
        elif kind in ("sell", "buy", "to", "add"):
            o = os_[op["k"] - 1]
            amt = o.y if op["whole"] else num(op["amt"])
            ev.update(k=op["k"], amt=rat(amt), execute=op["execute"], allowneg=op["allowneg"], roe=op["roe"], expand=op["expand"])
            if kind == "sell":
                r = guarded(o.selly, amt, execute=op["execute"], allowneg=op["allowneg"], expandcurve=op["expand"], raiseonerror=op["roe"])
            elif kind == "buy":
                r = guarded(o.buyx, amt, execute=op["execute"], allowneg=op["allowneg"], expandcurve=op["expand"], raiseonerror=op["roe"])
            elif kind == "to":
                r = guarded(o.tradeto, amt, execute=op["execute"])
            else:
                r = guarded(o.addliqy, amt, expandcurve=op["expand"])
            ev["res"] = r[0]
            d = r[1] if r[0] == "value" else {}
            for f in FLD:
                ev[f.replace("/", "")] = ratn(d.get(f))
            ev["executed"] = boolean(d["executed"]) if "executed" in d else True
            ev["expanded"] = boolean(d["expanded"]) if "expanded" in d else False
            ev["lk"] = d.get("linked") is not None
        elif kind == "query":
            o = os_[op["k"] - 1]
            fn = op["fn"]
            x, x2 = num(op["x"]), num(op["x2"])
            ev.update(k=op["k"], fn=fn, x=rat(x), x2=rat(x2), full=op["full"], check=op["check"], roe=op["roe"], sx=op["sx"], vals=[])
            if fn in ("p_marg_f", "p_eff_f"):
                r = guarded(getattr(o, fn), x, fullcurve=op["full"], checkbounds=op["check"], raiseonerror=op["roe"])
            elif fn in ("yfromp_f", "dyfromp_f", "dyfromdx_f", "dxfromdy_f", "xfromy_f", "yfromx_f"):
                r = guarded(getattr(o, fn), x, checkbounds=op["check"], raiseonerror=op["roe"])
            elif fn == "share":
                r = guarded(o.liquidity_approx, x, x2, asperc=True)
            elif fn == "liq":
                ev["tk"] = o.pair.tknb if op["bt"] else o.pair.tknq
                r = guarded(o.liquidity_approx, x, x2, tkn=None if op["bt"] else o.pair.tknq)
            elif fn == "params":
                r = guarded(lambda: [o.Q, o.Gamma, o.x0, o.y0, o.p0_raw, o.xasym, o.yasym, o.kappa, o.kappa_bar, o.leverage_fctr,
                                     o.widthr, o.widthpc, o.p0, o.xint, o.x,
                                     O.Q_from_Gamma(o.Gamma), O.Gamma_from_Q(o.Q), o.p_start, o.p_end, o.total_liquidity[0]])
            elif fn == "cpc":
                def cpc():
                    c = o.as_cpc
                    ev["cpair"] = string(c.pair)
                    return [c.k, c.x, c.y, c.x_act, c.y_act, c.p]
                r = guarded(cpc)
            elif fn == "yzABS":
                r = guarded(lambda: list(o.yzABS(op["sx"]).astuple))
                ev["decs"] = [integer(o.pair.decimals[o.tkny]), integer(o.pair.decimals[o.tknx])]
            elif fn == "seek":
                # the trade that moves the price half way, by goal seek
                tgt = o.p_marg_f(x * o.y)
                r = guarded(O.goalseek, lambda d: o.p_marg_f(d, checkbounds=False) - tgt, -o.y / 10, o.y)
                ev["x"] = rat(x * o.y)
            ev["res"] = r[0]
            if r[0] == "value":
                v = r[1] if isinstance(r[1], list) else [r[1]]
                ev["vals"] = [ratn(t) for t in v]
        elif kind == "static":
            fn = op["fn"]
            x, lo, hi, root = (num(op[t]) for t in ("x", "lo", "hi", "root"))
            ev.update(fn=fn, x=rat(x), d=op["d"], lo=rat(lo), hi=rat(hi), root=rat(root), vals=[])
            if fn == "round":
                r = guarded(O.roundsd, x, op["d"])
            else:
                r = guarded(O.goalseek, lambda t: (t - root) * (1 + (t - root) ** 2), lo, hi)
            ev["res"] = r[0]
            if r[0] == "value":
                ev["vals"] = [ratn(r[1])]
        ev["st"] = [row(o) for o in os_]
        emit(ev)


if __name__ == "__main__":
    main(run, limit=20, head=lambda p: {"linked": p["linked"], "pair": p["pair"]})
