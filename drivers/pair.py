"""Driver: builds pairs in all the ways there are, and asks them questions."""
from common import *
from carbon.pair import CarbonPair as P


def dec(x):
    return -1 if x is None else integer(x)


def attrs(p):
    d = p.decimals
    if not (d[p.tknb] == d["_TKNB"] and d[p.tknq] == d["_TKNQ"] and d["_DIFFQB"] == p.decdiffqb):
        raise NotAValue("decimals")
    return {"base": string(p.tknb), "quote": string(p.tknq), "slash": string(p.slashpair), "iso": string(p.pair_iso),
            "conv": string(p.price_convention), "tb": string(p.basetoken), "tq": string(p.quotetoken),
            "db": dec(d["_TKNB"]), "dq": dec(d["_TKNQ"]), "diff": -99 if d["_DIFFQB"] is None else integer(d["_DIFFQB"]),
            "has": boolean(p.has_decimals), "bo": string(p.tknb_o), "qo": string(p.tknq_o), "so": string(p.slashpair_o),
            "bd": string(p.tknb_d), "qd": string(p.tknq_d), "sd": string(p.slashpair_d)}


def build(op, ev):
    b, q, how, bad = op["b"], op["q"], op["how"], op["bad"]
    kw = {"display_orig": True} if op["display"] else {}
    disp = False
    refuse = False
    amb = False
    tkn = ""
    iso = b["as"] + q["as"]
    up = iso.upper()
    if how == "slash":
        s = f'{b["as"]}/{q["as"]}'
        if bad == "three":
            s += "/X"; refuse = True
        elif bad == "one":
            s = iso; refuse = True
        a = (s,)
        if bad == "both":
            kw["tknb"] = b["as"]; refuse = True
        elif bad == "half":
            kw["tknq"] = b["as"]; refuse = True
        f = lambda: P(*a, **kw)
        disp = op["display"]
    elif how == "tokens":
        kw.update(tknb=b["as"], tknq=q["as"])
        if bad == "one":
            del kw["tknq"]; refuse = True
        elif bad == "half":
            del kw["tknb"]; refuse = True
        f = lambda: P(**kw)
        disp = op["display"]
    elif how == "create1":
        s = f'{b["as"]}/{q["as"]}'
        if bad == "three":
            s += "/X"; refuse = True
        f = lambda: P.create(s)
    elif how == "create2":
        f = lambda: P.create(b["as"], q["as"])
    elif how == "iso":
        # without a token the name is split in the middle
        refuse = len(up) not in (6, 8)
        if not refuse and len(b["up"]) != len(q["up"]):
            amb = True
            h = len(up) // 2
            tkn = up[:h]
        f = lambda: P.from_isopair_and_tkn(iso)
    elif how == "isotkn":
        tkn = (b, q)[op["which"] - 1]["as"]
        if bad == "foreign":
            tkn = "XYZ"; refuse = True
        elif bad == "inside":
            tkn = iso[1:-1]
        elif bad == "whole":
            tkn = iso
        u = tkn.upper()
        refuse = not (up.startswith(u) or up.endswith(u)) or u == up
        cand = {u} if refuse else {x for x in (u, up[len(u):] if up.startswith(u) else u, up[:-len(u)] if up.endswith(u) else u)}
        amb = not refuse and (u not in (b["up"], q["up"]) or (up.startswith(u) and up.endswith(u)))
        t = tkn
        tkn = u
        f = lambda: P.from_isopair_and_tkn(iso, t)
    else:
        sp = " " if op["display"] else ""
        s = f'{sp}{b["as"]}{sp}/{sp}{q["as"]}'
        if bad == "three":
            s += "/X"; refuse = True
        elif bad == "one":
            s = iso; refuse = True
        ds = (None if op["db"] < 0 else op["db"], None if op["dq"] < 0 else op["dq"])
        f = (lambda: P.from_slashpair(s)) if ds == (None, None) else (lambda: P.from_slashpair(s, ds))
    ev.update(refuse=refuse, ambiguous=amb, tkn=tkn, tokens=[b["up"], q["up"]], disp=disp, dct={k: v for k, v in P.DECDICT.items()})
    p = f()
    if how != "fromslash":
        x = tuple(None if v < 0 else v for v in (op["db"], op["dq"]))
        r = p.set_decimals(*x, dct=dict(P.DECDICT)) if op["usedct"] else p.set_decimals(*x)
        if r is not p:
            raise NotAValue("set_decimals")
    if op["copy"] == "ctor":
        ev["disp"] = False
        p = P(p)
    elif op["copy"] == "create":
        r = P.create(p)
        if P.create() is not None:
            raise NotAValue("create()")
        p = r
    return p


def run(plan, emit):
    p = None
    for op in plan["ops"]:
        ev = {"op": op["op"], "wf": True}
        k = op["op"]
        if k == "make":
            ev.update({x: op[x] for x in ("how", "b", "q", "db", "dq", "copy", "usedct")})
            try:
                r = build(op, ev)
            except (ValueError, TypeError, KeyError) as e:
                ev["ok"] = False
                if p is None:                     # something to talk about
                    emit(ev)
                    p = P("ETH/USDC")
                    ev = {"op": "make", "wf": True, "how": "slash", "b": {"up": "ETH", "as": "ETH"}, "q": {"up": "USDC", "as": "USDC"},
                          "db": -1, "dq": -1, "copy": "no", "usedct": False, "refuse": False, "ambiguous": False, "tkn": "",
                          "tokens": ["ETH", "USDC"], "disp": False, "dct": {}, "ok": True, "r": attrs(p)}
            else:
                p = r
                ev.update(ok=True, r=attrs(p))
        else:
            a, x, y = num(op["a"]), num(op["x"]), num(op["y"])
            t, u = op["t"], op["u"]
            ev.update(a=rat(a), x=rat(x), y=rat(y), t=t, u=u, side=op["side"], rev=op["rev"], phrase=op["phrase"], none=op["none"])
            if k == "convert":
                ev["res"] = ratn(p.convert(a, t, u, x))
            elif k == "price":
                ev["res"] = ratn(p.price(x, t, u))
            elif k == "convert_price":
                ev["res"] = ratn(p.convert_price(None if op["none"] else x, t))
            elif k == "limit":
                side = {"buy": P.BUY, "sell": P.SELL}[op["side"]]
                r = p.limit_is_met(t, x, side, y, op["rev"], asphrase=op["phrase"])
                if r is None:
                    ev["res"] = "None"
                elif op["phrase"]:
                    ev["res"] = "phrase"
                    ev["says"] = "does not" not in string(r)
                else:
                    ev["res"] = "TRUE" if boolean(r) else "FALSE"
            elif k == "other":
                r = p.other(t)
                ev.update(res="None" if r is None else string(r), has=boolean(p.has_token(t)), isb=boolean(p.has_basetoken(t)), isq=boolean(p.has_quotetoken(t)))
            elif k == "reverse":
                ev.update(base=string(p.reverse.tknb), quote=string(p.reverse.tknq))
            elif k == "attrs":
                ev.update(base=string(p.tknb), quote=string(p.tknq))
            ev["now"] = {"base": string(p.tknb), "quote": string(p.tknq)}
        emit(ev)


if __name__ == "__main__":
    main(run, limit=10)
