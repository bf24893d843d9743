"""Driver: orders described in all ways, books read from files, and routing through them."""
import csv
import logging
import tempfile
from common import *
from carbon.order import Order
from carbon.routers.alpha_router import AlphaRouter
from carbon.routers.fast_router import FastRouter

logging.getLogger().setLevel(logging.CRITICAL)
ROUTER = {"alpha": AlphaRouter, "fast": FastRouter}


def enc(s, how):
    """the number, as given to the code"""
    if s == "None":
        return None
    f = Fraction(s)
    if how == "str":
        return str(Decimal(f.numerator) / Decimal(f.denominator))
    if how == "dec":
        return Decimal(f.numerator) / Decimal(f.denominator)
    if how == "int" and f.denominator == 1:
        return f.numerator
    return float(f)


def val(v):
    return "None" if v is None else rat(Decimal(v) if isinstance(v, str) else v)


def row(o):
    if o is None:
        return {"k": "none"}
    d = {"k": "order", "B": rat(o.B), "S": rat(o.S), "z": rat(o.y_int), "y": rat(o.y), "D": rat(o.D), "lo": rat(o.p_low), "hi": rat(o.p_high),
         "ok": True}
    try:
        d.update(n=rat(o.n), p=rat(o.p), x0=rat(o.x0), y0=rat(o.y0), kk=rat(o.k), a=rat(o.a), x=rat(o.x))
    except Exception as e:
        d.update(ok=False, err=f"{type(e).__name__}: {e}"[:100], n="0", p="0", x0="0", y0="0", kk="0", a="0", x="0")
    return d


def describe(op, ev):
    d, e = op["d"], op["enc"]
    v = {k: enc(d[k], e) for k in ("B", "S", "lo", "hi", "z", "D", "pm", "y")}
    ev["d"] = {**{k: val(x) for k, x in v.items()}, "rev": d["rev"]}
    names = dict(B="B", S="S", lo="p_low", hi="p_high", z="y_int", D="D", pm="p_marginal", y="_y")
    return Order(**{names[k]: x for k, x in v.items() if x is not None}, _reverseq=d["rev"])


def write(op, ev, folder):
    recs = []
    for r in op["recs"]:
        recs.append({k: enc(r[k], op["enc"]) for k in r})
    ev["recs"] = [{k: val(x) for k, x in r.items()} for r in recs]
    fn = os.path.join(folder, "book." + op["kind"])
    if op["kind"] == "csv":
        with open(fn, "w", newline="") as f:
            w = csv.writer(f)
            w.writerow((["junk"] if op["junk"] else []) + ["p_low", "y_int", "p_high"])
            for r in recs:
                w.writerow(([7] if op["junk"] else []) + [repr(x) if isinstance(x, float) else x for x in (r["lo"], r["z"], r["hi"])])
        # what the file says, as floating point numbers
        ev["recs"] = [{k: rat(float(x)) for k, x in r.items()} for r in recs]
        return fn
    names = dict(B="B", S="S", z="y_int", y="_y")
    out = [{**{names[k]: x for k, x in r.items() if x is not None}, **({"pair": "ETH/USDC", "id": 7} if op["junk"] else {})} for r in recs]
    if op["top"] == "dict":
        out = {f"curve{(5 * k + 3) % 16}": r for k, r in enumerate(out)}
    with open(fn, "w") as f:
        json.dump(out, f)
    return fn


NIX = {"pa": "token_1_p_a", "pb": "token_1_p_b", "z": "token_1_y_int", "pa2": "token_2_p_a", "pb2": "token_2_p_b", "z2": "token_2_y_int"}


def run(plan, emit):
    slots, book, folder = [None] * 3, [], tempfile.mkdtemp(prefix="book")
    try:
        for op in plan["ops"]:
            ev = {"op": op["op"], "wf": True}
            try:
                if op["op"] == "order":
                    ev.update(slot=op["slot"], ok=True)
                    try:
                        slots[op["slot"] - 1] = describe(op, ev)
                    except Hang:
                        raise
                    except Exception as e:
                        ev.update(ok=False, err=f"{type(e).__name__}: {e}"[:200])
                elif op["op"] == "sety":
                    o = slots[op["slot"] - 1]
                    ev.update(slot=op["slot"], y="0")
                    if o is not None:
                        o.y = Decimal(o.y_int) * Decimal(Fraction(op["f"]).numerator) / Decimal(Fraction(op["f"]).denominator)
                        ev["y"] = rat(o.y)
                elif op["op"] == "file":
                    ev.update(kind=op["kind"], limit=op["limit"], nix=op["nix"], ok=True, map=[], err="")
                    fn = write(op, ev, folder)
                    kw = {}
                    if op["limit"]:
                        kw["num_curves"] = op["limit"]
                    if not op["nix"]:
                        kw["format_type"] = "plain"
                    if op["kind"] == "csv":
                        kw["file_type"] = "csv"
                    try:
                        r = ROUTER[op["who"]]().make_orders_from_file(fn, **kw)
                        if op["nix"]:
                            r, m = r
                            ev["map"] = [{"i": integer(i), **{k: rat(x[f]) for k, f in NIX.items()}} for i, x in m.items()]
                        if not isinstance(r, list):
                            raise NotAValue(repr(r)[:100])
                        book = r
                    except (Hang, NotAValue):
                        raise
                    except Exception as e:
                        ev.update(ok=False, err=f"{type(e).__name__}: {e}"[:200])
                        book = []
                elif op["op"] == "route":
                    ev.update(t=op["t"], who=op["who"], ok=True, acts=[], err="")
                    live = [o for o in book if o.y > 0]
                    cap = [float(o.y) if op["t"] else drain(o) for o in book]
                    # the best filled first; by far not everything
                    x = Decimal(float(Fraction(op["f"])) * sum(cap))
                    ev["x"] = rat(x)
                    r = ROUTER[op["who"]]()
                    r.orders = book
                    kw = {}
                    if op["thr"] or len(book) > 10:
                        kw["threshold_orders"] = len(book)
                    try:
                        # by target, amounts are negative: they leave the orders
                        a = (r.match_by_target(-x, **kw) if op["t"] else r.match_by_src(x, **kw)) if book else []
                        ev["acts"] = [{"i": integer(q.index) + 1, "in": rat(q.input), "out": rat(q.output), "ti": rat(q.total_input), "to": rat(q.total_output)} for q in a]
                    except (Hang, NotAValue):
                        raise
                    except Exception as e:
                        ev.update(ok=False, err=f"{type(e).__name__}: {e}"[:200])
            except NotAValue as e:
                ev.update(wf=False, err=str(e)[:200])
            ev["now"] = [row(o) for o in slots]
            ev["book"] = [row(o) for o in book] if op["op"] in ("file", "route") else []
            emit(ev)
    finally:
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        os.rmdir(folder)


def drain(o):
    B, S, z, y = (float(v) for v in (o.B, o.S, o.y_int, o.y))
    q = S * y + B * z
    return y * z * z / (q * (q - S * y))


if __name__ == "__main__":
    main(run, limit=60)
