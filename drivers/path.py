"""Driver: strategies, their runs along price paths, and price series."""
import os
import pickle
import tempfile
import pandas as pd
from common import *
from carbon.helpers.strategym import strategy
from carbon.helpers.simulation import run_sim, StartConditions
from carbon.helpers.pathinterpolation import PathInterpolation
from carbon.helpers.pathgenerator import PathGenerator
import carbon.helpers
import sys as _sys
pdr = _sys.modules["carbon.helpers.pdread"]
from datetime import datetime, timedelta

REFUSALS = (ValueError, TypeError, KeyError, AssertionError)
T0 = pd.Timestamp("2021-03-04 05:06:00")


def fields(s):
    if not isinstance(s, strategy):
        raise NotAValue(repr(s))
    return {"psa": rat(s.p_sell_a), "psb": rat(s.p_sell_b), "pba": rat(s.p_buy_a), "pbb": rat(s.p_buy_b),
            "ar": ratn(s.amt_rsk), "ac": ratn(s.amt_csh), "psm": ratn(s.psell_marginal), "pbm": ratn(s.pbuy_marginal),
            "ys": ratn(s.y_int_sell), "yb": ratn(s.y_int_buy), "rsk": string(s.rsk), "csh": string(s.csh),
            "rescale": boolean(s.rescale), "fctr": ratn(s.rescaled_fctr)}


def tok(x):
    return None if x == "None" else x


def mk(a):
    h = a["how"]
    if h == "mgw":
        w = tuple(num(x) for x in a["w"]) if a["pw"] else num(a["w"][0])
        u = tuple(num(x) for x in a["u"]) if a["pu"] else num(a["u"][0])
        return strategy.from_mgw(m=num(a["m"]), g=num(a["g"]), w=w, u=u, amt_rsk=num(a["ar"]), amt_csh=num(a["ac"]), rsk=tok(a["rsk"]), csh=tok(a["csh"]))
    if h == "sb":
        s, b = tuple(num(x) for x in a["sell"]), tuple(num(x) for x in a["buy"])
        if a["scalar"]:
            s, b = s[0], b[0]
        return strategy.from_sb(s, b, fixed=a["fixed"], overlapping=a["overlapping"])
    if h == "u3":
        return strategy.from_u3(p_lo=num(a["lo"]), p_hi=num(a["hi"]), start_below=a["below"], tvl_csh=num(a["tvl"]), fee_pc=num(a["fee"]),
                                rsk=tok(a["rsk"]), csh=tok(a["csh"]))
    if h == "plain":
        return strategy(num(a["psa"]), num(a["psb"]), num(a["pba"]), num(a["pbb"]), amt_rsk=num(a["ar"]), amt_csh=num(a["ac"]),
                        psell_marginal=num(a["psm"]), pbuy_marginal=num(a["pbm"]), y_int_sell=num(a["ys"]), y_int_buy=num(a["yb"]),
                        rsk=tok(a["rsk"]), csh=tok(a["csh"]), rescale=a["rescale"])
    if h == "dct":
        m, u, s = a["a"], a["u"], a["s"]
        d = {"strat_type": a["kind"], "strat_m": num(m["m"]), "strat_g": num(m["g"])}
        if m["pw"]:
            d["strat_wsell"], d["strat_wbuy"] = (num(x) for x in m["w"])
        else:
            d["strat_w"] = num(m["w"][0])
        if m["pu"]:
            d["strat_usell"], d["strat_ubuy"] = (num(x) for x in m["u"])
        else:
            d["strat_u"] = num(m["u"][0])
        d.update(p_lo=num(u["lo"]), p_hi=num(u["hi"]), start_below=u["below"], fee_pc=num(u["fee"]))
        d.update(p_sell_a=num(s["psa"]), p_sell_b=num(s["psb"]), p_buy_a=num(s["pba"]), p_buy_b=num(s["pbb"]))
        r = strategy.from_dct(d, raiseonerror=not a["quiet"])
        if r is None:
            if not a["quiet"]:
                raise NotAValue("None")
            raise ValueError("None")
        return r
    raise NotAValue(h)


def exact(a):
    """the arguments as the numbers which the code was given"""
    def f(k, v):
        if isinstance(v, list):
            return [f(k, x) for x in v]
        if isinstance(v, dict):
            return {kk: f(kk, x) for kk, x in v.items()}
        if isinstance(v, str) and (v.lstrip("-")[:1].isdigit()):
            return rat(num(v))
        return v
    return {k: f(k, v) for k, v in a.items()}


def ns(t):
    return str(int((pd.Timestamp(t) - T0) / pd.Timedelta(1, "ns")) if not isinstance(t, pd.Timestamp) else (t - T0).value)


def series(gaps, prices, unit="min"):
    ix, t = [T0], T0
    for g in gaps:
        t = t + pd.Timedelta(g, unit)
        ix.append(t)
    return pd.Series([float(num(p)) for p in prices], index=ix)


def pts(s):
    return [[ns(t), rat(v)] for t, v in s.items()]


def do_run(op, emit):
    op = exact(op)
    strats = []
    for a in op["strats"]:
        try:
            strats.append(mk(a))
        except REFUSALS:
            ev = {"op": "made", "wf": True, "a": a, "ok": False, "quiet": False}
            emit(ev)
            return
    given = [fields(s) for s in strats]
    zeros = op["zeros"]
    prices = [0.0] * zeros + [float(num(p)) for p in op["path"]]
    path = pd.Series(prices, index=[T0 + pd.Timedelta(i, "D") for i in range(len(prices))])
    ev = {"op": "run", "wf": True, "strats": given, "spot": rat(prices[zeros]), "shift": rat(num(op["shift"]), True)}
    kw = {} if op["shift"] == "None" else {"shift": num(op["shift"])}
    try:
        r = run_sim(strats[0] if op["single"] else strats, path, **kw)
    except REFUSALS as e:
        ev.update(ok=False, err=str(e)[:200])
        emit(ev)
        return
    ev.update(ok=True, after=[fields(s) for s in r.strat], unchanged=[fields(s) for s in strats] == given,
              n=integer(len(r.rskamt_r)), want=len(op["path"]))
    lens = {len(r.rskamt_r), len(r.cshamt_r), len(r.value_r), len(r.hodl_r), len(r.spot_r)} | {len(x) for x in r.margpbuy_r} | {len(x) for x in r.margpsell_r}
    if lens != {len(op["path"])}:
        raise NotAValue(f"lengths {lens}")
    emit(ev)
    for i in range(len(op["path"])):
        emit({"op": "at", "wf": True, "i": i, "spot": rat(prices[zeros + i]), "rsk": rat(r.rskamt_r[i]), "csh": rat(r.cshamt_r[i]),
              "value": rat(r.value_r.iloc[i]), "hodl": rat(r.hodl_r.iloc[i]), "path": rat(r.spot_r.iloc[i]), "t": ns(r.spot_r.index[i]), "t0": ns(path.index[zeros + i]),
              "bids": [rat(x[i]) for x in r.margpbuy_r], "asks": [rat(x[i]) for x in r.margpsell_r]})


def run(plan, emit):
    cur = None
    for op in plan["ops"]:
        k = op["op"]
        ev = {"op": k, "wf": True}
        if k == "make":
            a = exact(op["a"])
            try:
                s = mk(a)
            except REFUSALS as e:
                emit({"op": "made", "wf": True, "a": a, "ok": False})
                continue
            cur = s
            string(s.descr) if s.amt_rsk is not None else None
            emit({"op": "made", "wf": True, "a": a, "ok": True, "s": fields(s)})
        elif k == "run":
            do_run(op, emit)
        elif k in ("rescale", "tvl", "dct"):
            if cur is None:
                continue
            before = fields(cur)
            ev["before"] = before
            if k == "rescale":
                ev.update(new=rat(num(op["new"])), old=rat(num(op["old"])), force=op["force"])
                try:
                    r = cur.rescale_strat(num(op["new"]), num(op["old"]), op["force"]) if op["force"] or num(op["old"]) != 100 else cur.rescale_strat(num(op["new"]))
                except REFUSALS:
                    ev["ok"] = False
                else:
                    ev.update(ok=True, s=fields(r), fresh=r is not cur)
            elif k == "tvl":
                ev.update(spot=rat(num(op["spot"])), pc=rat(num(op["pc"])), tvl=rat(num(op["tvl"])))
                r = cur.set_tvl(num(op["spot"]), num(op["pc"]), num(op["tvl"]))
                ev.update(ok=True, s=fields(r), fresh=r is not cur)
            else:
                d = cur.dct
                p = cur.p
                ev["slash"] = string(cur.slashpair)
                ev["d"] = {"tkn": string(d["tkn"]), "pair": string(d["pair"]), **{x: ratn(d[x]) for x in
                           ("amt_sell", "psell_start", "psell_end", "amt_buy", "pbuy_start", "pbuy_end", "psell_marginal", "pbuy_marginal", "y_int_sell", "y_int_buy")}}
                ev["n"] = len(d)
                ev["p"] = [string(p[0])] + [ratn(x) for x in p[1:]]
            ev["same"] = fields(cur) == before
            emit(ev)
            if k != "dct" and ev["ok"]:
                cur = r
        elif k == "diff":
            rr = {i: dict(r) for i, r in enumerate(op["recs"])}
            d = strategy.drr(rr, baseline=op["baseline"], purge=op["purge"], asdf=op["asdf"], comment=op["comment"])
            ev.update(op)
            if strategy.r0(rr) != rr[0] or [r for r in rr.values()] != op["recs"]:
                raise NotAValue("r0")
            if op["asdf"]:
                ev["rows"] = [{"c": string(c), "v": [string(x) for x in d[c]]} for c in d.columns]
            else:
                ev["res"] = [[{"k": kk, "v": "None" if v is None else string(v)} for kk, v in d[i].items()] for i in range(len(rr))]
            emit(ev)
        elif k == "interp":
            s = series(op["gaps"], op["prices"])
            ev.update(gaps=op["gaps"], period=op["period"], enable=op["enable"], zero=op["sig"] == "0" or (op["sig"] == "None" and op["fctr"] == "0") or
                      (op["sig"] == "None" and len(op["prices"]) == 2), orig=pts(s))
            r = PathInterpolation.interpolate(s, PathInterpolation.minutes(op["period"]), sig=num(op["sig"]), sigfctr=num(op["fctr"]), enable=op["enable"])
            ev["res"] = pts(r)
            ev["same"] = pts(s) == ev["orig"]
            emit(ev)
        elif k == "vol":
            n = len(op["prices"])
            p = series([op["days"]] * (n - 1), op["prices"], "D")
            sd, sig = PathInterpolation.estimate_vol(p)
            _, s2 = PathInterpolation.estimate_vol(p * 7)
            _, s3 = PathInterpolation.estimate_vol(1 / p)
            sd4, s4 = PathInterpolation.estimate_vol_np(p.to_numpy(), (n - 1) * op["days"] / 365.25 * 4)
            ev.update(prices=[rat(x) for x in p], days=op["days"], sd=rat(sd), sig=rat(sig), sig7=rat(s2), siginv=rat(s3), sd4=rat(sd4), sig4=rat(s4))
            emit(ev)
        elif k == "gen":
            kw = {x: num(op[x]) for x in ("s0", "sig", "mu", "time") if op[x] != "None"}
            start = datetime(2020, 1, 1)
            if op["start"] == "tuple":
                start = datetime(2021, 12, 31); kw["startdt"] = (2021, 12, 31)
            elif op["start"] == "dt":
                start = datetime(2022, 2, 28, 7); kw["startdt"] = start
            if op["col"] != "None" and op["when"] == "ctor":
                kw["colname"] = op["col"]
            g = PathGenerator(N=op["N"], **kw)
            df = g.pathdf(op["paths"], colname=op["col"]) if op["col"] != "None" and op["when"] == "call" else g.pathdf(op["paths"])
            one = g.path()
            two = g()
            sig = Fraction(op["sig"]) if op["sig"] != "None" else Fraction(1, 2)
            mu = Fraction(op["mu"]) if op["mu"] != "None" else Fraction(0)
            fm = op["col"] if op["col"] != "None" else "p{sig100:03d}-{mu100:02d}-{ix:03d}"
            ev.update(s0=rat(num(op["s0"])) if op["s0"] != "None" else "100", flat=sig == 0, still=mu == 0, N=op["N"], paths=op["paths"],
                      time=rat(num(op["time"])) if op["time"] != "None" else "1",
                      names=[fm.format(sig100=int(sig * 100), mu100=int(mu * 100), ix=i) for i in range(op["paths"])],
                      cols=[string(c) for c in df.columns], vals=[[rat(x) for x in df[c]] for c in df.columns] + [[rat(x) for x in one], [rat(x) for x in two]],
                      times=[rat(x) for x in g.times], dts=[rat(Fraction(int((pd.Timestamp(t) - pd.Timestamp(start)).value), 10**9)) for t in df.index],
                      dtg=[rat(Fraction(int((pd.Timestamp(t) - pd.Timestamp(start)).value), 10**9)) for t in g.datetimes])
            ev["distinct"] = len(set(map(tuple, ev["vals"]))) == len(ev["vals"])
            emit(ev)
        elif k == "conds":
            d = {"filtered price chart": [str(float(num(x))) for x in op["prices"]], "carbon order weights": [float(num(x)) for x in op["w"]],
                 "carbon order boundaries": [num(x) for x in op["ranges"]], "carbon starting prices": [num(x) for x in op["marg"]],
                 "starting portfolio valuation": [num(op["val"])], "uniswap range boundaries": [1, 2]}
            fd, fn = tempfile.mkstemp(prefix="verif-sc-")
            with os.fdopen(fd, "wb") as f:
                pickle.dump(d, f)
            try:
                c = StartConditions.load(fn)
            finally:
                os.unlink(fn)
            p = c.path
            t0 = pd.Timestamp("2020-01-01")
            ev.update(exact({x: op[x] for x in ("w", "val", "ranges", "marg")}), prices=[rat(float(num(x))) for x in op["prices"]], s=fields(c.strategy_carbon),
                      n=integer(c.num_points), res=[[str((t - t0).value), rat(x)] for t, x in p.items()])
            emit(ev)
        elif k == "read":
            a, b = series(op["gaps"], op["prices"], "D"), series(op["gaps"], op["other"], "D")
            df = pd.DataFrame({"ETH/USDC": a, "plain": b})
            df.index.name = "datetime"
            fd, fn = tempfile.mkstemp(prefix="verif-pd-")
            os.close(fd)
            try:
                df.to_pickle(fn)
                kw = {}
                if op["from"] in ("ts", "both"):
                    kw["from_ts"] = str(T0 + pd.Timedelta(op["fd"], "D"))
                if op["from"] == "early":
                    kw["from_ts"] = "2020-01-01"
                if op["from"] in ("pc", "both"):
                    kw["from_pc"] = num(op["fpc"])
                if op["per"] in ("days", "both"):
                    kw["period_days"] = num(op["pd"])
                if op["per"] in ("pc", "both"):
                    kw["period_pc"] = num(op["ppc"])
                days = sum(op["gaps"])
                mn = op["min"]
                if mn >= 0 and mn <= days:
                    kw["min_dt"] = T0 + pd.Timedelta(mn, "D")
                else:
                    mn = -1
                if op["col"] == "name":
                    kw["datacol"] = ("ETH/USDC", "plain")[op["which"]]
                elif op["col"] == "int":
                    kw["datacol"] = op["which"]
                elif op["col"] == "bad":
                    kw["datacol"] = 1.5
                if op["invert"]:
                    kw["invert"] = True
                if op["tkns"]:
                    kw["tkns"] = True
                ev.update(frm=op["from"], fd=op["fd"], fpc=rat(num(op["fpc"])), per=op["per"], pd=rat(num(op["pd"])), ppc=rat(num(op["ppc"])),
                          min=mn, col=op["col"], which=op["which"], invert=op["invert"], tkns=op["tkns"],
                          orig=[[ns(t), rat(x), rat(y)] for t, x, y in zip(df.index, a, b)])
                try:
                    r = pdr.pdread(fn, **kw)
                except REFUSALS:
                    ev["ok"] = False
                else:
                    ev["ok"] = True
                    ev["tk"] = ["", ""]
                    if isinstance(r, tuple):
                        r, t = r
                        ev["tk"] = [string(x) for x in t]
                    if isinstance(r, pd.DataFrame):
                        ev["frame"] = True
                        ev["res"] = [[ns(t), rat(x), rat(y)] for t, x, y in zip(r.index, r["ETH/USDC"], r["plain"])]
                    else:
                        ev["frame"] = False
                        ev["res"] = pts(r)
                        if len(r):
                            ev["time"] = [rat(pdr.pathtime(r)), rat(pdr.pathtime_yrs(r)), rat(pdr.pathtime_days(r))]
                    if [str(c) for c in pdr.pdcols(fn)] != ["ETH/USDC", "plain"]:
                        raise NotAValue("pdcols")
            finally:
                os.unlink(fn)
            emit(ev)


if __name__ == "__main__":
    main(run, limit=60)
