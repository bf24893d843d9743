"""Driver: contract arithmetic, its reference and the matching of benchmark/core."""
from common import *
from core.trade import impl, spec
from core.match import impl as match
import asbuilt_matchbest


def dec(s):
    """rational (with a denominator that divides a power of ten) as text"""
    f = Fraction(s)
    d = 0
    while f.denominator != 1:
        f *= 10
        d += 1
    s = str(f.numerator)
    if d:
        s = s.rjust(d + 1, "0")
        s = (s[:-d] + "." + s[-d:])
    return s


def whole(x):
    if isinstance(x, bool) or not isinstance(x, int):
        raise NotAValue(f"not an integer: {x!r}")
    return str(x)


def order(o):
    return {k: whole(o[k]) for k in "yzAB"} | {"a": whole(impl.decodeFloat(o["A"])), "b": whole(impl.decodeFloat(o["B"]))}


def acts(l):
    return [] if l is None else [{"id": integer(a.id) + 1, "in": whole(a.input), "out": whole(a.output)} for a in l]


def run(plan, emit):
    made, enc = [], []
    for op in plan["ops"]:
        k = op["op"]
        ev = {"op": k, "wf": True}
        if k == "order":
            o = dict(liquidity=dec(op["liq"]), lowestRate=dec(op["lo"]), highestRate=dec(op["hi"]), marginalRate=dec(op["mg"]))
            made.append(o)
            ev.update({x: rat(Fraction(op[x])) for x in ("liq", "lo", "hi", "mg")})
            try:
                e = impl.encodeOrder(o)
                ev["ok"] = True
                ev["enc"] = order(e)
                d = impl.decodeOrder(e) if e["z"] else None
                ev["hasdec"] = d is not None
                d = d or impl.decodeOrder(dict(e, y=1, z=1))
                ev["dec"] = {x: rat(d[y]) for x, y in (("liq", "liquidity"), ("lo", "lowestRate"), ("hi", "highestRate"), ("mg", "marginalRate"))}
                s = spec.decodeOrder(spec.encodeOrder(o))
                ev["ref"] = {x: rat(s[y]) for x, y in (("liq", "liquidity"), ("lo", "lowestRate"), ("hi", "highestRate"), ("mg", "marginalRate"))}
            except ZeroDivisionError:
                ev["ok"] = False
                e = None
            enc.append(e)
        elif k == "trade":
            o = enc[op["k"] - 1]
            if o is None:
                continue
            b4 = dict(o)
            name = "tradeBySourceAmount" if op["side"] == "source" else "tradeByTargetAmount"
            a = int(op["amt"])
            ev.update(c=order(o), side=op["side"], amt=op["amt"], res=whole(getattr(impl, name)(a, o)), same=b4 == o,
                      whole=whole(impl.execute(name, op["amt"], made[op["k"] - 1])))
        elif k == "reference":
            o = made[op["k"] - 1]
            name = "tradeBySourceAmount" if op["side"] == "source" else "tradeByTargetAmount"
            ev.update(side=op["side"], amt=op["amt"], o={"liq": rat(Decimal(o["liquidity"])), "lo": rat(Decimal(o["lowestRate"])), "mg": rat(Decimal(o["marginalRate"]))})
            try:
                ev["res"] = rat(spec.execute(name, dec(op["amt"]), o))
            except ArithmeticError as e:
                ev["res"] = "None"
        elif k == "float":
            a = int(op["amt"])
            e = impl.encodeFloat(a)
            ev.update(amt=op["amt"], enc=whole(e), dec=whole(impl.decodeFloat(e)), again=whole(impl.encodeFloat(impl.decodeFloat(e))))
        elif k == "rate":
            e = impl.encodeRate(Decimal(dec(op["amt"])))
            ev.update(amt=op["amt"], enc=whole(e), dec=rat(impl.decodeRate(Decimal(e))))
        elif k == "match":
            ids = [i for i in op["ids"] if enc[i - 1] is not None]
            name = "matchBySourceAmount" if op["side"] == "source" else "matchByTargetAmount"
            types = {"both": ["Fast", "Best"], "Fast": ["Fast"], "Best": ["Best"]}[op["types"]]
            os_ = [made[i - 1] for i in ids]
            es = [enc[i - 1] for i in ids]
            b4 = json.dumps([os_, es])
            q = match.rateBySourceAmount if op["side"] == "source" else match.rateByTargetAmount
            a = int(op["amt"])
            qs = [q(a, e) for e in es]
            ev["besterr"] = "no"
            try:
                r = match.execute(name, op["amt"], os_, types) if op["types"] != "both" else match.execute(name, op["amt"], os_)
            except Exception as x:
                if op["types"] == "Fast":
                    raise
                ev["besterr"] = type(x).__name__
                r = {**match.execute(name, op["amt"], os_, ["Fast"]), "Best": None}
                if op["types"] == "Best":
                    r["Fast"] = None
            if op["types"] != "Fast":        # does it do just what the known finding describes?
                try:
                    b = acts(asbuilt_matchbest.run(match, name, a, dict(enumerate(es)), lambda rate: rate.input > 0 and rate.output > 0))
                except Exception as x:
                    b = type(x).__name__
                ev["bestknown"] = b == (ev["besterr"] if ev["besterr"] != "no" else acts(r["Best"]))
            ev.update(side=op["side"], amt=op["amt"], types=op["types"], cs=[order(e) for e in es],
                      quotes=[{"in": whole(x.input), "out": whole(x.output)} for x in qs],
                      hasfast=r["Fast"] is not None, hasbest=r["Best"] is not None, fast=acts(r["Fast"]), best=acts(r["Best"]),
                      same=b4 == json.dumps([os_, es]))
        emit(ev)


if __name__ == "__main__":
    main(run, limit=60)
