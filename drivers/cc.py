"""Driver: the client of market data, with a server and a cache directory of its own."""
import hashlib
import pickle
import shutil
import tempfile
from common import *
import pandas as pd
from carbon.helpers import cryptocompare as cc

ERRORS = (RuntimeError, OSError, ValueError)


class Response:
    def __init__(self, status, body):
        self.status_code, self.body = status, body
        self.ok = status < 400
        self.reason, self.text = str(status), json.dumps(body)

    def __bool__(self):
        return self.ok

    def json(self):
        return json.loads(self.text)

    def raise_for_status(self):
        if not self.ok:
            raise RuntimeError(self.status_code)


class Server:
    """stands in for requests: answers as told and records what it was asked"""
    def __init__(self):
        self.reqs, self.served = [], []
        self.mode, self.body = "ok", lambda k: {}

    def get(self, url, params=None, **kw):
        if kw:
            raise NotAValue(f"request {kw}")
        self.reqs.append({"url": string(url), "params": sorted([string(k), repr(v)] for k, v in (params or {}).items())})
        if self.mode == "fail":
            return Response(500, {"Response": "Error", "Data": {"v": "no"}})
        if self.mode == "err":
            return Response(200, {"Response": "Error", "Message": "no", "Data": {}})
        return Response(200, self.body(len(self.reqs)))


def stamp(t, how):
    if how == "date":
        return f'{t["y"]:04d}-{t["m"]:02d}-{t["d"]:02d}'
    return f'{t["y"]:04d}-{t["m"]:02d}-{t["d"]:02d}{"T" if how == "iso" else " "}{t["h"]:02d}:{t["mi"]:02d}:{t["s"]:02d}'


def secs(x):
    return integer(pd.Timestamp(x).value // 10 ** 9)


def table(df):
    """a data frame: columns [name parts, values], and its index"""
    return {"idx": [secs(x) for x in df.index],
            "cols": [{"c": [string(p) for p in (c if isinstance(c, tuple) else (c,))], "v": [ratn(float(x)) for x in df.iloc[:, k]]} for k, c in enumerate(df.columns)]}


def run(plan, emit):
    srv = Server()
    cc._requests = srv
    tmp = tempfile.mkdtemp(prefix="cc-")
    key = plan["cfg"]["key"]
    os.environ.pop("CCAPIKEY", None)
    kw = {}
    if key == "True":
        kw["apikey"] = True
    elif key == "env":
        os.environ["CCAPIKEY"] = key = "from-env"
    elif key == "env2":
        os.environ["MYKEY"] = key = "from-my-env"
        kw["apikeyname"] = "MYKEY"
    else:
        kw["apikey"] = key
    if not plan["cfg"]["roe"]:
        kw["raiseonerror"] = False
    try:
        C = cc.CryptoCompare(**kw)
        if C.keydigest != ("0" * 40 if key == "True" else hashlib.sha1(key.encode()).hexdigest()):
            raise NotAValue("digest")
        for op in plan["ops"]:
            ev = one(C, srv, tmp, op)
            ev.update(op=op["op"], wf=True, key=key, roe=plan["cfg"]["roe"], reqs=srv.reqs, cache=contents(os.path.join(tmp, "c")))
            emit(ev)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def contents(d):
    r = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        with open(os.path.join(d, f), "rb") as h:
            v = pickle.load(h)
        if v is not None:
            r.append([f, content(v)])
    return r


def content(d):
    """the content of an item, which may be empty"""
    return "empty" if d == {} else string(d["v"])


def made(v):
    return {} if v == "empty" else {"v": v}


def outcome(f, conv):
    try:
        r = f()
    except ERRORS as e:
        if isinstance(e, NotAValue):
            raise
        return {"res": "raised", "val": "None"}
    return {"res": "none", "val": "None"} if r is None else {"res": "value", "val": conv(r)}


def one(C, srv, tmp, op):
    o = op["op"]
    srv.reqs, srv.served = [], []
    srv.mode = op.get("srv", "ok")
    d = os.path.join(tmp, "c")
    os.makedirs(d, exist_ok=True)
    C.DATAPATH = d if op.get("disk", True) else os.path.join(tmp, "missing")
    ev = {k: v for k, v in op.items() if k not in ("op",)}
    v = content
    if "v" in op:
        srv.body = lambda k: {"Response": "Success", "Data": made(op["v"])}
    if o == "get":
        if not op["disk"]:
            # the cache is there, but cannot be written
            C.DATAPATH = d
            C.write_cache_real = None
            real = C.datafn
            def write(item, data):
                C.datafn = lambda fn: os.path.join(tmp, "missing", fn)
                try:
                    return type(C).write_cache(C, item, data)
                finally:
                    C.datafn = real
            C.write_cache = write
        k = {} if op["dflt"] else {"readonfail": op["rof"], "updateonfail": op["uof"]}
        if op["dflt"]:
            ev["rof"], ev["uof"] = True, False
        ev["out"] = outcome(lambda: getattr(C, "cache_" + op["item"])(**k), v)
        C.__dict__.pop("write_cache", None)
        C.__dict__.pop("datafn", None)
    elif o == "query":
        ev["out"] = outcome(lambda: getattr(C, "query_" + op["item"])(), v)
    elif o == "read":
        ev["out"] = outcome(lambda: C.cache(op["item"]), v)
    elif o == "write":
        ev["out"] = outcome(lambda: C.write_cache(op["item"], made(op["v"])), string)
    elif o == "call":
        kw = {} if op["method"] == "None" else {"method": op["method"]}
        p = {k: {"None": None, "3": 3, "0": 0, "False": False, "blank": ""}.get(x, x) for k, x in (("a", op["a"]), ("b", op["b"]))}
        ev["ps"] = [[k, "None" if x is None else repr(x)] for k, x in p.items()]
        ev["out"] = outcome(lambda: C.query(op["endpoint"], p, **kw), lambda r: string(r.json()["Data"]["v"]))
    elif o == "ts":
        t = op["t"]
        s = stamp(t, op["how"])
        if op["how"] == "from":
            x = C.ts_fromcc(secs(s))
            ev["got"] = {"y": x.year, "m": x.month, "d": x.day, "h": x.hour, "mi": x.minute, "s": x.second}
            ev["sec"] = secs(s)
        else:
            x = C.ts_tocc(pd.Timestamp(s) if op["how"] == "ts" else s)
            ev["got"] = t
            ev["sec"] = integer(x)
    elif o in ("freq", "aggr"):
        step = {"day": 86400, "hour": 3600, "minute": 60}.get(op["freq"], 86400)

        def body(k):
            rows = []
            for j in range(op["m"]):
                r = {"time": 1600000000 + j * step, "high": k * 1000 + j + 0.75, "low": k * 1000 + j + 0.25, "open": k * 1000 + j + 0.5,
                     "volumefrom": k + j / 8, "volumeto": k + j / 16, "close": k * 1000 + j + 0.625, "conversionType": "direct", "conversionSymbol": ""}
                rows.append(r)
            srv.served.append([{kk: (vv if kk == "time" else rat(vv)) for kk, vv in r.items() if not kk.startswith("conv")} for r in rows])
            return {"Response": "Success", "Data": {"Aggregated": False, "TimeFrom": 0, "Data": rows}}
        srv.body = body
        if o == "freq":
            kw = {"fsym": op["fsym"]}
            if op["tsym"] != "None":
                kw["tsym"] = op["tsym"]
            if op["e"] != "None":
                kw["e"] = op["e"]
            if op["limit"] != "False":
                kw["limit"] = None if op["limit"] == "None" else int(op["limit"])
            if op["tk"] != "none":
                kw["toTs"] = secs(stamp(op["t"], "str")) if op["tk"] == "int" else stamp(op["t"], op["tk"])
            if not op["aspandas"]:
                kw["aspandas"] = False
            if op["via"]:
                f = lambda: getattr(C, f'query_{ {"day": "daily", "hour": "hourly", "minute": "minutely"}[op["freq"]] }pair')(**kw)
            else:
                f = lambda: C.query_freqlypair(op["freq"], **kw)
            conv = table if op["aspandas"] else (lambda r: {"idx": [integer(x["time"]) for x in r["Data"]],
                   "cols": [{"c": [c], "v": [rat(x[c]) for x in r["Data"]]} for c in ("open", "close", "high", "low", "volumefrom", "volumeto")]})
            ev["out"] = outcome(f, conv)
        else:
            pairs = [tuple(p) for p in op["pairs"]]
            a = {"str": ", ".join("/".join(p) for p in pairs), "tuple": tuple(pairs), "pt": [C.pt_from_pair("/".join(p)) for p in pairs]}[op["how"]]
            kw = {}
            if op["fl"] in ("str", "one"):
                kw["fields"] = ", ".join(op["fields"])
            elif op["fl"] == "list":
                kw["fields"] = list(op["fields"])
            for k, n in (("raw", "incl_raw"), ("rawaggr", "incl_raw_aggr"), ("gaggr", "incl_grand_aggr")):
                if not op[k]:
                    kw[n] = False
            if op["freq"] != "None":
                kw["freq"] = op["freq"]
            if op["limit"] != "None":
                kw["limit"] = int(op["limit"])
            if op["e"] != "None":
                kw["e"] = op["e"]
            no = {"idx": [], "cols": []}
            ev["out"] = outcome(lambda: C.aggr_query(a, **kw), lambda r: {
                "raw": [{"p": string(p), "t": table(t)} for p, t in (r["raw"] or {}).items()],
                "rawaggr": table(r["rawaggr"]) if r["rawaggr"] is not None else no,
                "aggr": [{"f": string(f), "t": table(t)} for f, t in r["aggr"].items()],
                "gaggr": table(r["gaggr"]) if r["gaggr"] is not None else no,
                "has": [r["raw"] is not None, r["rawaggr"] is not None, r["gaggr"] is not None]})
        ev["served"] = srv.served
    elif o == "pairs":
        def form(l):
            return op["sep"].join(l) if op["how"] == "str" else tuple(l) if op["how"] == "tuple" else list(l)
        a = form(op["coins"])
        r = C.create_pairs(a) if op["noq"] else C.create_pairs(a, form(op["quotes"]))
        if not isinstance(r, tuple) or any(p != (p.tknb, p.tknq) for p in r):
            raise NotAValue("pairs")
        ev["got"] = [[string(p.tknb), string(p.tknq)] for p in r]
        names = [C.pair_from_pt(p) for p in r]
        ev["names"] = [string(x) for x in names]
        ev["back"] = [list(C.pt_from_pair(x)) for x in names]
        ev["joined"] = list(C.unjoin(C.join(op["coins"]))) if op["coins"] else []
        ev["listed"] = list(C.coinlist(a))
        ev["listpt"] = [list(p) for p in C.coinlist(op["sep"].join(names), aspt=True)] if names else []
    return ev


if __name__ == "__main__":
    main(run)
