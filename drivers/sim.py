"""Driver: replays plans of simulator calls against CarbonSimulatorUI through its public interface."""
import hashlib
from decimal import Decimal
from common import *
from carbon import CarbonSimulatorUI


def order_row(r):
    return {
        "id": integer(r["id"]), "pair": string(r["pair"]), "tkn": string(r["tkn"]),
        "y": rat(r["y"]), "y_int": rat(r["y_int"]), "y_unit": string(r["y_unit"]),
        "disabled": boolean(r["disabled"]), "p_start": ratn(r["p_start"]), "p_end": ratn(r["p_end"]),
        "p_marg": ratn(r["p_marg"]), "p_unit": string(r["p_unit"]), "lid": integer(r["lid"]), "cid": str(r["cid"]),
    }


def tri(x):
    if x is None or x != x:
        return "None"
    return str(boolean(x))


def trade_row(r):
    aggr = boolean(r["aggr"])
    return {
        "uid": string(r["uid"]), "id": integer(r["id"]), "subid": str(r["subid"]), "note": string(r["note"]),
        "aggr": aggr, "exec": boolean(r["exec"]), "limitfail": tri(r["limitfail"]),
        "amt1": rat(r["amt1"]), "tkn1": string(r["tkn1"]), "amt2": rat(r["amt2"]), "tkn2": string(r["tkn2"]),
        "pair": string(r["pair"]), "price": rat(r["price"]), "p_unit": string(r["p_unit"]),
        "nroutes": integer(r["nroutes"]),
        "routeix": -1 if aggr else integer(r["routeix"]),
        "routes": [integer(x) for x in json.loads(r["routeix"])] if aggr else [],
        "thr": integer(r["threshold_orders"]) if "threshold_orders" in r and r["threshold_orders"] == r["threshold_orders"]
               and r["threshold_orders"] is not None else -1,
    }


def digest(row):
    return hashlib.md5(json.dumps(row, sort_keys=True).encode()).hexdigest()[:12]


def ui_row(i, u):
    return {"id": integer(i), "tkn": string(u.tkn), "y": rat(u.y), "yint": rat(u.yint), "lid": integer(u.lid)}


def run(plan, emit):
    kw = {}
    if plan["dpair"]["base"] != "None":
        kw["pair"] = f'{plan["dpair"]["base"]}/{plan["dpair"]["quote"]}'
    mode = plan["mode"]
    sim = CarbonSimulatorUI(matching_method=plan["mm"], verbose=mode in ("verbose", "loud"), debug=mode in ("debug", "loud"),
                            raiseonerror=mode in ("raise", "loud"), **kw)

    def called(f, ev, **kw):
        """what f says, whichever way it refuses"""
        ev["raised"] = False
        if not sim.raiseonerror:
            return f(**kw)
        try:
            return f(**kw)
        except Exception as e:
            ev["raised"] = True
            return {"success": False, "error": str(e)}

    made = []                                   # ids of the orders, in the order of creation

    def state():
        s = sim.state()
        orders = [order_row(r) for r in records(s["orders"])] if len(s["orders"]) else []
        trades = [trade_row(r) for r in records(s["trades"])] if len(s["trades"]) else []
        return {"orders": orders, "log": [digest(t) for t in trades],
                "numtr": integer(sim.numtrades), "numpos": integer(sim.numpos)}

    def real(k):
        return made[k] if 0 <= k < len(made) else 1000 + k

    for op in plan["ops"]:
        ev = {"op": op["op"], "wf": True}
        pair = None
        if "pair" in op and op["pair"]["base"] != "None":
            pair = f'{op["pair"]["base"]}/{op["pair"]["quote"]}'
        if op["op"] == "add":
            a = op["a"]
            vals = {k: num(a[k]) for k in ("amt_sell", "psell_start", "psell_end", "amt_buy", "pbuy_start", "pbuy_end",
                                          "psell_marginal", "pbuy_marginal", "y_int_sell", "y_int_buy")}
            call = dict(vals)
            if op.get("how") == "order":
                r = called(sim.add_order, ev, tkn=a["tkn"], amt=vals["amt_sell"], p_start=vals["psell_start"], p_end=vals["psell_end"],
                                  p_marginal=vals["psell_marginal"], y_int=vals["y_int_sell"], pair=pair)
            else:
                if a["cid"] != "":
                    call["carbon_id"] = a["cid"]
                r = called(sim.add_strategy, ev, tkn=a["tkn"], pair=pair, **call)
            ev["ok"] = boolean(r["success"])
            ev["pair"] = op["pair"]
            ev["a"] = {"tkn": a["tkn"], "cid": a["cid"], **{k: rat(v, True) for k, v in vals.items()}}
            ev["rows"] = [order_row(x) for x in records(r["orders"])] if ev["ok"] else []
            ev["uis"] = [ui_row(i, u) for i, u in r["orderuis"].items()] if ev["ok"] else []
            made += [x["id"] for x in ev["rows"]]
        elif op["op"] == "del":
            i = real(op["id"])
            r = sim.delete_strategy(i) if op.get("how") == "strategy" else sim.delete_order(i)
            ev["id"] = i
            ev["ret"] = [integer(x) for x in r]
        elif op["op"] == "trade":
            a = op["arg"]
            amt = num(a["amt"])
            call = {"tkn": a["tkn"], "amt": amt, "execute": a["execute"], "inpair": a["inpair"], "support_partial": a["partial"]}
            ap = a["pair"]
            if ap["base"] != "None":
                call["pair"] = f'{ap["base"]}/{ap["quote"]}'
            if a["limit"] != "None":
                call["limit_price"] = num(a["limit"])
            if a["limamt"] != "None":
                call["limit_amt"] = num(a["limamt"])
            use = [real(k) for k in a["use"]]
            if not a["useall"]:
                call["use_positions"] = use
            if plan["mm"] == "alpha":
                call["threshold_orders"] = a["thr"]
            r = called(getattr(sim, a["f"]), ev, **call)
            ev["ok"] = boolean(r["success"])
            ev["arg"] = {**a, "use": use, "amt": rat(Decimal(str(amt))), "limit": rat(num(a["limit"]), True),
                         "limamt": rat(num(a["limamt"]), True)}
            ev["rows"] = [trade_row(x) for x in records(r["trades"])] if ev["ok"] else []
            ev["dig"] = [digest(x) for x in ev["rows"]]
            ev["isbt"] = boolean(r["is_by_target"]) if ev["ok"] else False
            ev["sold"] = string(r["tkn_sold"]) if ev["ok"] else ""
            if not ev["ok"]:
                ev["err"] = str(r.get("error"))[:100]
        elif op["op"] == "liq":
            r = sim.liquidity()
            ev["res"] = [{"pair": string(p), "tkn": string(t), "y": rat(y)} for p, d in (r or {}).items() for t, y in d.items()]
        elif op["op"] == "view":
            isos = op["isos"]
            s = sim.state(pair=list(isos) if len(isos) > 1 or op["aslist"] else isos[0], inclhistory=False)
            ev["isos"] = isos
            ev["orders"] = [order_row(x) for x in records(s["orders"])]
            full = sim.state()
            ev["uis"] = [ui_row(i, u) for i, u in full["orderuis"].items()]
        ev["st"] = state()
        emit(ev)


if __name__ == "__main__":
    main(run, head=lambda p: {"mm": p["mm"], "dpair": p["dpair"], "raises": p["mode"] in ("raise", "loud")})
