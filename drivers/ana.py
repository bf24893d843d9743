"""Driver: numerical order books, and quotes and liquidity of the simulator through the analytics."""
from common import *
import numpy as np
import pandas as pd
from matplotlib import pyplot as plt
from carbon import CarbonSimulatorUI, CarbonPair
from carbon.simulators import sim_analytics as al


def ratx(x):
    """as rat, where absent values are None and infinities are told"""
    if x is None:
        return "None"
    if isinstance(x, (float, np.floating)):
        if x != x:
            return "None"
        if x in (float("inf"), float("-inf")):
            return "inf"
    return rat(x)


def seq(v):
    return [ratx(x) for x in v]


def nums(v, how):
    """the numbers of a plan in one of the forms in which they may be given; and what was given"""
    xs = [None if x == "None" else float(Fraction(x)) for x in v]
    given = [ratx(x) for x in xs]
    if how == "vec":
        return al.vec(xs), given
    if how == "nan":
        return [float("nan") if x is None else x for x in xs], given
    if how == "array":
        return np.array([float("nan") if x is None else x for x in xs], dtype=float), given
    return xs, given


def chart(name, x, y, **units):
    return {"name": name, "x": seq(x), "y": seq(y), **{k: string(v) for k, v in units.items()}}


def lines():
    """what the last plot shows, which is then discarded"""
    ax = plt.gca()
    r = [(list(l.get_xdata()), list(l.get_ydata())) for l in ax.lines]
    u = dict(xu=ax.get_xlabel(), yu=ax.get_ylabel())
    plt.close("all")
    return r, u


def charts(ob):
    r = []
    d = ob.data_tokenamount_chart()
    if not (d["x"] is d["src"] and d["y"] is d["trg"]):
        raise NotAValue("token chart")
    r.append(chart("token", d["x"], d["y"], xu=d["src_unit"], yu=d["trg_unit"]))
    f = ob.data_tokenamount_chart(aspandas=True)
    r.append(chart("token-df", f.iloc[:, 0], f.iloc[:, 1], xu=f.columns[0], yu=f.columns[1]))
    for rev in (False, True):
        n = "r" if rev else ""
        d = ob.data_price_chart(reverse=rev)
        if not (d["x1"] is d["size1"] and d["y1"] is d["price1_eff"] and d["x2"] is d["size2"] and d["y2"] is d["price2_marg"]):
            raise NotAValue("price chart")
        r.append(chart("eff" + n, d["x1"], d["y1"], xu=d["size_unit"], yu=d["prices_unit"], way=d["ammm_buysell_src"]))
        r.append(chart("marg" + n, d["x2"], d["y2"], xu=d["size_unit"], yu=d["prices_unit"], way=d["ammm_buysell_src"]))
        f = ob.data_price_chart(reverse=rev, aspandas=True)
        r.append(chart("eff-df" + n, f.iloc[:, 0], f.iloc[:, 1], xu=f.columns[0], yu=f.columns[1]))
        r.append(chart("marg-df" + n, f.iloc[:, 2], f.iloc[:, 3], xu=f.columns[2], yu=f.columns[3]))
    d = ob.data_orderbook_chart()
    if not (d["x"] is d["liquidity"] and d["y"] is d["prices"]):
        raise NotAValue("order book chart")
    r.append(chart("ob", d["x"], d["y"], xu=d["liquidity_unit"], yu=d["prices_unit"]))
    f = ob.data_orderbook_chart(aspandas=True)
    r.append(chart("ob-df", f.iloc[:, 1], f.iloc[:, 0], xu=f.columns[1], yu=f.columns[0]))
    return r


def plots(ob, other):
    r = []
    ob.plot_tokenamount_chart()
    (l,), u = lines()
    r.append(chart("token-plot", *l, **u))
    ob.plot_price_chart()
    (a, b), u = lines()
    r.append(chart("eff-plot", *a, **u))
    r.append(chart("marg-plot", *b, **u))
    ob.plot_orderbook_chart(otherob=other)
    ls, u = lines()
    r.append(chart("ob-plot", ls[0][1], ls[0][0], xu=u["yu"], yu=u["xu"]))
    if other is not None:
        r.append(chart("other-plot", ls[1][1], ls[1][0], xu=u["yu"], yu=u["xu"]))
    return r


def bookdata(ob):
    d = {"src": ob.src_amounts, "trg": ob.trg_amounts, "prices": ob.prices, "pricesr": ob.pricesr(), "prices0": ob.pricesr(False),
         "msrc": ob.marg_src_amounts, "mtrg": ob.marg_trg_amounts, "marg": ob.marg_prices, "margr": ob.marg_pricesr(),
         "marg0": ob.marg_pricesr(reverse=False), "dmarg": ob.dmarg_prices, "liq": ob.ob_liquidity, "obp": ob.ob_prices,
         "mids": ob.midpoints(ob.src_amounts)}
    return {k: seq(v) for k, v in d.items()}


def labels(ob):
    return {"base": string(ob.base_tkn), "quote": string(ob.quote_tkn), "src": string(ob.src_token_outin), "trg": string(ob.trg_token_outin),
            "bssrc": string(ob.amm_buysell_src), "bstrg": string(ob.amm_buysell_trg), "ba": string(ob.amm_bidask), "pu": string(ob.prices_u),
            "mpu": string(ob.marg_prices_u), "opu": string(ob.ob_prices_u), "pru": string(ob.pricesr_u()), "pru0": string(ob.pricesr_u(False)),
            "mpru": string(ob.marg_pricesr_u()), "lu": string(ob.ob_liquidity_u), "explain": ob.explain().split("\n"),
            "rev": boolean(ob.reverse_book)}


def makebook(src, trg, st, tt, side, ev, noname=False):
    bidask = {"ask": al.OrderBook.ASK, "bid": al.OrderBook.BID}.get(side, side)
    try:
        if noname:
            ob = al.OrderBook(src, trg)
        else:
            ob = al.OrderBook(src, trg, st, tt, bidask)
    except ValueError:
        ev["ok"] = False
        return None
    ev.update(ok=True, data=bookdata(ob), lab=labels(ob), charts=charts(ob))
    fin = len(ev["data"]["liq"]) > 0 and all(x not in ("inf", "None") for k in ("prices", "marg", "liq", "trg") for x in ev["data"][k])
    if fin:
        ev["charts"] += plots(ob, ob if side == "bid" else None)
    return ob


def fn(op, ev):
    how = op["how"]
    a, ev["a"] = nums(op["a"], how)
    b, ev["b"] = nums(op["b"], how)
    name = op["fn"]
    x = float(Fraction(op["x"]))
    ev["x"] = rat(x)
    if name == "linspace0":
        kw = {}
        ev["eps"], ev["eps2"] = "None", "None"
        if op["eps"] != "None":
            kw["eps"] = float(Fraction(op["eps"]))
            ev["eps"] = rat(kw["eps"])
        if op["eps2"] != "None":
            kw["eps2"] = float(Fraction(op["eps2"]))
            ev["eps2"] = rat(kw["eps2"])
        if op["k"] != 10:
            kw["nint"] = op["k"]
        r = al.linspace0(x, **kw)
    elif name == "linspace":
        r = al.linspace(float(Fraction(op["eps"])), x, op["k"])
        ev["eps"] = rat(float(Fraction(op["eps"])))
    elif name == "midpoints":
        r = al.midpoints(a)
    elif name == "diff":
        r = al.diff(a)
    elif name == "vecdot":
        r = [al.vecdot(al.vec(a), al.vec(b))]
    elif name == "truncate":
        r, r2 = al.truncate(a, b)
        ev["res2"] = seq(r2)
    ev["k"] = op["k"]
    ev["res"] = seq(r)


BOOKS = {"BID_BOOK": "bid", "ASK_BOOK": "ask", "BID": "bid", "ASK": "ask", "OFFER": "ask", "OFFER_BOOK": "ask"}


def run(plan, emit):
    kw = {}
    if plan["dpair"]["base"] != "None":
        kw["pair"] = f'{plan["dpair"]["base"]}/{plan["dpair"]["quote"]}'
    sim = CarbonSimulatorUI(matching_method=plan["mm"], verbose=False, **kw)
    decoy = CarbonSimulatorUI(pair="ETH/USDC", verbose=False)
    decoy.add_strategy("ETH", 5e8, 3.5, 3.75, 5e8, 1.25, 1.125)
    decoy2 = CarbonSimulatorUI(pair="LINK/DAI", verbose=False)
    decoy2.add_strategy("LINK", 5e8, 3.5, 3.75, 5e8, 1.25, 1.125)

    def slash(p):
        return f'{p["base"]}/{p["quote"]}'

    def orders():
        s = sim.state()["orders"]
        return [{"id": integer(r["id"]), "y": rat(r["y"]), "z": rat(r["y_int"]), "tkn": string(r["tkn"])} for r in records(s)] if len(s) else []

    def analytics(op):
        """an Analytics object, and the simulator to pass"""
        own = {"own": sim, "arg": None, "decoy": decoy, "decoy2": decoy2, "nosim": None}[op["sim"]]
        return al.Analytics(own), ({"sim": sim} if op["sim"] in ("arg", "decoy", "decoy2") else {})

    for op in plan["ops"]:
        o = op["op"]
        ev = {"op": o, "wf": True}
        if o == "add":
            a = op["a"]
            vals = {k: num(a[k]) for k in ("amt_sell", "psell_start", "psell_end", "amt_buy", "pbuy_start", "pbuy_end",
                                          "psell_marginal", "pbuy_marginal", "y_int_sell", "y_int_buy")}
            pair = slash(op["pair"]) if op["pair"]["base"] != "None" else None
            r = sim.add_strategy(tkn=a["tkn"], pair=pair, **vals)
            ev["ok"] = boolean(r["success"])
            ev["pair"] = op["pair"]
            ev["a"] = {"tkn": a["tkn"], "cid": "", **{k: rat(v, True) for k, v in vals.items()}}
            ev["rows"] = [integer(x["id"]) for x in records(r["orders"])] if ev["ok"] else []
        elif o == "fn":
            ev["fn"] = op["fn"]
            fn(op, ev)
        elif o == "book":
            src, ev["src"] = nums(op["src"], "list" if op["how"] == "nan" else op["how"])
            trg, ev["trg"] = nums(op["trg"], op["how"])
            noname = op["side"] == "default"
            ev["side"] = "ask" if noname else op["side"]
            ev["stkn"], ev["ttkn"] = ("SRC", "TRG") if noname else (op["stkn"], op["ttkn"])
            makebook(src, trg, op["stkn"], op["ttkn"], op["side"], ev, noname)
        elif o == "price":
            A, kw = analytics(op)
            ev.update(sim=op["sim"], side=BOOKS.get(op["const"], "bad"), tkn=op["tkn"], pair=op["pair"])
            size = num(op["size"])
            ev["size"] = rat(Decimal(str(size)))
            if op["tkn"] != "None":
                kw["tkn"] = op["tkn"]
            if op["pair"]["base"] != "None":
                kw["pair"] = slash(op["pair"])
            try:
                r = A.effective_price(size, getattr(A, op["const"], op["const"]), **kw)
                ev["res"], ev["ok"] = ratx(r), True
            except (ValueError, AttributeError) as e:
                if isinstance(e, AttributeError) and op["sim"] != "nosim":
                    raise
                ev["ok"] = False
            ev["orders"] = orders()
        elif o == "trade":
            A, kw = analytics(op)
            ev.update(sim=op["sim"], side={"ASK": "ask", "BID": "bid", "AMM_SELLS_BASETOKEN": "ask", "AMM_BUYS_BASETOKEN": "bid"}.get(op["const"], "bad"),
                      pair=op["pair"], badpair=op["badpair"])
            size = num(op["size"])
            ev["size"] = rat(Decimal(str(size)))
            if op["pair"]["base"] != "None":
                kw["carbon_pair"] = slash(op["pair"]) if op["badpair"] else CarbonPair(slash(op["pair"]))
            try:
                r = A.simulate_trades(size, getattr(A, op["const"], op["const"]), **kw)
                ev["res"], ev["ok"] = ratx(r), True
            except (ValueError, AttributeError) as e:
                if isinstance(e, AttributeError) and op["sim"] != "nosim":
                    raise
                ev["ok"] = False
            ev["orders"] = orders()
        elif o == "depth":
            A, kw = analytics(op)
            ev.update(sim=op["sim"], side=op["side"], pair=op["pair"])
            p = CarbonPair(slash(op["pair"]))
            src = al.linspace0(float(Fraction(op["xmax"])), op["k"])
            ev["src"] = seq(src)
            ev["sizes"] = [rat(Decimal(str(x))) for x in src]
            trg = [A.simulate_trades(x, A.ASK if op["side"] == "ask" else A.BID, carbon_pair=p, **kw) for x in src]
            ev["trg"] = [ratx(x) for x in trg]
            ev["stkn"], ev["ttkn"] = op["pair"]["base"], op["pair"]["quote"]
            makebook(src, trg, ev["stkn"], ev["ttkn"], op["side"], ev)
            ev["orders"] = orders()
        elif o == "approx":
            prices, ev["prices"] = nums(op["prices"], op["how"])
            ev.update(pair=op["pair"], reverse=op["reverse"], purge=op["purge"])
            kw = {}
            if not op["reverse"]:
                kw["reverse"] = False
            if not op["purge"]:
                kw["purgezero"] = False
            r = al.calc_liquidity_approx(sim.state()["orderuis"], prices, CarbonPair(slash(op["pair"])), **kw)
            ev.update(ask=seq(r["ask"]), bid=seq(r["bid"]), mids=seq(r["prices"]), pu=string(r["price_u"]), lu=string(r["liqtkn_u"]),
                      rev=boolean(r["reverse"]), isop=r["pair"].slashpair)
            al.plot_approx_orderbook_chart(r)
            ls, u = lines()
            ev["plot"] = [{"x": seq(x), "y": seq(y)} for x, y in ls]
            ev["orders"] = orders()
        emit(ev)


if __name__ == "__main__":
    main(run, head=lambda p: {"mm": p["mm"], "dpair": p["dpair"]})
