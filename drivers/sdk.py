"""Driver: uses the client of the SDK server against a stand-in for the server, below the HTTP library."""
import requests
import requests.adapters
from urllib.parse import urlsplit
from common import *

TOKENS = [("ETH", "0xEeeeeEeeeEeEeeEeEeEeeEEEeeeeEeeeeeeeEEeE", 18), ("USDC", "0xa0b86991c6218b36c1d19d4a2e9eb0ce3606eb48", 6),
          ("WBTC", "0x2260fac5e5542a773aa44fbcfedf7c193bc2c599", 8), ("LINK", "0x514910771af9ca656af840dff83e8264ecf986ca", 18),
          ("FOO", "0x00000000000000000000000000000000000f0000", 2)]
NUM = {t: i + 1 for i, (t, _, _) in enumerate(TOKENS)}
BY = {a.lower(): i + 1 for i, (_, a, _) in enumerate(TOKENS)}


def tic(i):
    return TOKENS[i - 1][0]


def adr(i):
    return TOKENS[i - 1][1].lower()


def container():
    from carbon.sdk.sdktoken import TokenContainer
    return TokenContainer.fromlist(TOKENS)


def flat(x, path="", out=None):
    """nested value -> path: [kind, text]"""
    out = {} if out is None else out
    if isinstance(x, dict):
        if not x:
            out[path] = ["{}", ""]
        for k, v in x.items():
            flat(v, f"{path}/{k}" if path else str(k), out)
    elif isinstance(x, (list, tuple)):
        if not x:
            out[path] = ["[]", ""]
        for k, v in enumerate(x):
            flat(v, f"{path}/{k}" if path else str(k), out)
    elif x is None:
        out[path] = ["0", ""]
    elif x is True or x is False:
        out[path] = ["b", "T" if x else "F"]
    elif isinstance(x, str):
        try:
            out[path] = ["n", str(Fraction(x))]
        except (ValueError, ZeroDivisionError):
            out[path] = ["s", x]
    elif isinstance(x, (int, float)):
        out[path] = ["i", rat(x)]
    else:
        raise NotAValue(repr(x)[:100])
    return out


# ------------------------------------------------------------------ the server
class Server:
    """what is behind the wire: records what it is asked, answers as it is told"""

    def __init__(self):
        self.seen = []
        self.jobs = {}
        self.fault = "ok"
        self.answer = lambda ep, params: None

    def send(self, request):
        body = json.loads(request.body) if request.body else {}
        self.seen.append({"method": request.method.lower(), "url": request.url, "tok": request.headers.get("token", "None"), "params": flat(body)})
        if self.fault == "down":
            raise requests.ConnectionError("nobody there")
        r = requests.Response()
        r.status_code = 500 if self.fault == "500" else 200
        r.request, r.url, r.encoding = request, request.url, "utf-8"
        r._content = self.text(urlsplit(request.url).path, body).encode()
        return r

    def text(self, path, body):
        if self.fault == "html":
            return "<html>not what you want</html>"
        if self.fault == "refused" or (self.fault == "500" and ("ascall" in path or "result" in path)):
            return json.dumps({"success": False, "error": "no"})
        if self.fault == "nodata":
            return json.dumps({"something": "else"})
        parts = path.strip("/").split("/")
        if "result" in parts:
            k = parts[-1]
            if self.jobs.get(k) == "done":
                return json.dumps({"success": True, "awaiting": False, "data": {"result": {"job": k, "value": 42}}})
            return json.dumps({"success": False, "awaiting": k in self.jobs})
        if "ascall" in parts:
            k = str(len(self.jobs) + 1)
            self.jobs[k] = "pending"
            return json.dumps({"success": True, "reqid": int(k)})
        return json.dumps({"success": True, "data": self.answer(parts[-1], body)})


SERVER = [None]


def send(self, request, *args, **kw):
    return SERVER[0].send(request)


requests.adapters.HTTPAdapter.send = send


# ------------------------------------------------------------------ the protocol
def bn(i):
    return {"type": "BigNumber", "hex": hex(i)}


def data(op):
    """what the server has to say when all is well"""
    fn, k = op["fn"], op["k"]
    x, y = float(Fraction(op["x"])), float(Fraction(op["y"]))
    if fn == "hasLiquidityByPair":
        return [op["flag"], not op["flag"]] if op["opt"] == 3 else op["flag"]
    if fn in ("getLiquidityByPair", "getMinRateByPair", "getMaxRateByPair"):
        return str(y)
    if fn == "getRateLiquidityDepthByPair":
        return str(y) if op["opt"] == 1 else [str(y), {"error": "beyond"}] if op["flag"] else [str(x), str(y)]
    if fn == "getUserStrategies":
        return [] if op["opt"] == 1 else [{"id": bn(k), "buyPriceLow": "1.5"}]
    if fn == "balance":
        return [bn(k), bn(k * 1000)]
    if fn == "decimals":
        return [7, 9]
    if fn == "symbol":
        return ["AAA", "BBB"]
    if fn == "addr":
        return "0xdef"
    if fn == "version":
        return {"version": "9.9"}
    if fn == "pairs":
        second = "0xunknown" if op["opt"] == 1 and not op["flag"] else adr(op["s"])
        return [[adr(op["s"]), adr(op["t"])], [adr(op["t"]), second]]
    return {"id": k, "value": [str(x), y]}


def arguments(op, sdk):
    """positional and keyword arguments of the function at hand"""
    fn, k, opt, flag = op["fn"], op["k"], op["opt"], op["flag"]
    s, t = adr(op["s"]), adr(op["t"])
    x, y, z = (num(op[c]) for c in "xyz")
    over = {"overrides": {"gasLimit": 5}} if opt == 3 else {"overrides": {}} if opt == 2 else {}
    actions = [{"id": 3 if flag else "3", "amount": k, "f": 1.5}]
    T = container()
    toks = [T.byaddr(s), T.byaddr(t)]
    if fn in ("mul", "plus", "qmul", "qplus"):
        return (x, y), {}
    if fn == "getMatchActions":
        return (x, flag, [] if opt == 1 else [{"A": 5, "z": "7"}]), {}
    if fn == "getMatchParams":
        return (s, t, x, flag), {}
    if fn == "getTradeDataFromActions":
        return (s, t, flag), {} if opt == 1 else {"actionsWei": actions}
    if fn == "updateStrategy":
        up = {}
        if opt in (2, 4):
            up["buyPriceLow"] = x
        if opt in (3, 4):
            up["sellBudget"] = y
        up["buyMarginalPrice" if flag else "sellMarginalPrice"] = z
        return (k, {"y": "5"}, s, t, sdk.StrategyUpdate(**up)), over
    if fn == "hasLiquidityByPair":
        both = [{"sourceToken": s, "targetToken": t}, {"sourceToken": t, "targetToken": s}]
        return ((), {"pairs": both}) if opt == 3 else ((s, t), {"pairs": both}) if opt == 4 else ((s, t), {})
    if fn in ("getLiquidityByPair", "getMinRateByPair", "getMaxRateByPair"):
        return (s, t), {}
    if fn == "getRateLiquidityDepthByPair":
        return (s, t, x if opt == 1 else [x, y]), {}
    if fn == "getUserStrategies":
        return ("0xabc",), {}
    if fn == "getTradeData":
        return (s, t, x, flag), {} if opt == 1 else {"filter": [1]}
    if fn in ("composeTradeByTargetTransaction", "composeTradeBySourceTransaction"):
        lim = "maxInput" if "Target" in fn else "minReturn"
        return (s, t), {"tradeActions": None if opt == 1 else actions, "deadline": None if flag else k, lim: None if opt == 2 else x, **over}
    if fn == "createBuySellStrategy":
        return (s, t, x, y, z, x + 1, y + 2, z + 3), over
    if fn == "deleteStrategy":
        return (k,), over
    if fn == "balance":
        return (toks, "0xabc"), {}
    if fn in ("decimals", "symbol"):
        return (toks if fn == "decimals" or opt > 1 else [s, t],), {}
    if fn == "signsubmittx":
        tx = {"to": "0x1", "value": k}
        return ((tx,), {}) if flag and opt > 2 else ((tx, flag), {})
    if fn == "pairs":
        return ((flag,), {})
    return (), {}


NAMES = {"balance": "getERC20Balance", "decimals": "getERC20Decimals", "symbol": "getERC20Symbol"}


def plainly(x):
    """the answer of the client, flattened; tokens by their address"""
    from carbon.sdk.sdktoken import SDKToken
    if isinstance(x, SDKToken):
        return "token " + x.a
    if isinstance(x, (list, tuple)):
        return [plainly(v) for v in x]
    if isinstance(x, dict):
        return {k: plainly(v) for k, v in x.items()}
    return x


def answer(ev, sdk, f, args, kw):
    """the outcome of a call"""
    try:
        r = f(*args, **kw)
    except sdk.AsyncAPICallError:
        ev.update(how="refused", r={})
    except sdk.UnknownReqIdError:
        ev.update(how="unknown", r={})
    except sdk.APICallError:
        ev.update(how="unreachable", r={})
    except RuntimeError:
        ev.update(how="failed", r={})
    except (ValueError, KeyError, TypeError, AttributeError) as e:
        ev.update(how="exception", r={}, exc=type(e).__name__)
    else:
        if isinstance(r, (requests.Response, sdk.ErrorResponse)):
            ev.update(how="response", status=integer(r.status_code))
            try:
                ev["r"] = flat(r.json())
            except ValueError:
                ev["r"] = {}
        else:
            ev.update(how="value", r=flat(plainly(r)))


def client(op, st):
    from carbon.sdk import CarbonSDK
    kind = op["op"]
    if kind == "cfg":
        bool3 = {"N": None, "T": True, "F": False}
        kw = {"syncdefault": bool3[op["sd"]], "raiseonerror": op["raise"], "disclaimer": False, "verbose": False}
        for a, b in (("url", "us"), ("apibase", "bs"), ("token", "token")):
            if op[b] != "None":
                kw[a] = op[b]
        if op["tk"]:
            kw["Tokens"] = container()
        st["sdk"] = CarbonSDK(**kw)
        return {k: v for k, v in op.items() if k not in ("us", "bs")}
    sdk, srv = st["sdk"], st["server"]
    ev = {**op}
    srv.seen.clear()
    if kind == "serve":
        if str(op["k"]) in srv.jobs:
            srv.jobs[str(op["k"])] = "done"
        return ev
    srv.fault = op["fault"]
    if kind == "result":
        answer(ev, sdk, sdk.result, (op["k"] if op["k"] % 2 else str(op["k"]),), {})
    else:
        srv.answer = lambda ep, params: data(op)
        args, kw = arguments(op, sdk)
        if kind == "call" and op["sync"] != "N":
            kw["sync"] = op["sync"] == "T"
        ev["data"] = flat(data(op)) if kind == "ask" else {}
        answer(ev, sdk, getattr(sdk, NAMES.get(op["fn"], op["fn"])), args, kw)
    ev["reqs"] = [dict(r) for r in srv.seen]
    return ev


# ------------------------------------------------------------------ the market
def tokno(a):
    """the number of a token given by ticker or address"""
    a = string(a)
    return NUM.get(a) or BY.get(a.lower()) or 0


def conv(pair):
    from carbon import CarbonPair
    if isinstance(pair, str):
        pair = CarbonPair(pair)
    return [tokno(pair.tknb), tokno(pair.tknq)]


def market(op, st):
    from carbon import CarbonPair
    from carbon.sdk import CarbonSDK
    from carbon.sdk.sdktoken import TokenContainer
    fn, srv, mkt = op["fn"], st["server"], st["mkt"]
    if "sdk" not in st:
        st["sdk"] = CarbonSDK(url="http://one:3118", disclaimer=False, verbose=False, Tokens=container())
    sdk = st["sdk"]
    srv.seen.clear()
    srv.fault = "ok"
    ev = {**op, "ok": True}

    def offer(p):
        o = mkt[(BY[p["sourceToken"].lower()] - 1) * 5 + BY[p["targetToken"].lower()] - 1]
        return o["has"], Fraction(o["liq"]), Fraction(o["lo"]), Fraction(o["hi"])

    def depth(o, r):
        r = Fraction(r)
        return {"error": "beyond"} if r > o[3] * (1 + Fraction(1, 10 ** 13)) else str(float(o[1] * r))

    def respond(ep, p):
        if ep == "has_liquidity_by_pair":
            return [offer(q)[0] for q in p["pairList"]] if "pairList" in p else offer(p)[0]
        if ep == "get_liquidity_by_pair":
            return str(float(offer(p)[1]))
        if ep == "get_min_rate_by_pair":
            return str(float(offer(p)[2]))
        if ep == "get_max_rate_by_pair":
            return str(float(offer(p)[3]))
        if ep == "get_rate_liquidity_depth_by_pair":
            return [depth(offer(p), r) for r in p["rate"]] if isinstance(p["rate"], list) else depth(offer(p), p["rate"])
        if ep == "get_trade_data":
            return trade
        if ep == "get_user_strategies":
            return strats
        return {"tx": "0xfeed"}

    srv.answer = respond
    pair = f'{tic(op["b"])}/{tic(op["q"])}'
    sells = tic(op["sells"])
    x, y, z, w, a = (num(op[c]) for c in "xyzwa")
    b3, q3 = (op["k"] % 5) + 1, ((op["k"] + 1) % 5) + 1
    nsd = {1: True, 2: None, 3: op["k"] % 10, 4: True}[op["opt"]]
    id_ = int(op["id"])
    trade = {"tradeActions": [{"id": bn(id_), "amount": bn(int(op["zz"]))}], "actionsWei": [{"id": bn(id_), "sourceAmount": bn(int(op["yy"])), "targetAmount": bn(7)}],
             "actionsTokenRes": [{"id": bn(id_), "sourceAmount": str(float(x)), "targetAmount": "2.5"}], "totalSourceAmount": str(float(x)),
             "totalTargetAmount": str(float(y)), "effectiveRate": str(float(z))}
    case = (lambda s: s.upper().replace("0X", "0x")) if op["flag"] else (lambda s: s)
    order = lambda n: {"y": bn(int(op["yy"]) + n), "z": bn(int(op["zz"]) + n), "A": bn(5 + n), "B": bn(6 + n)}
    strats = [{"id": bn(id_), "baseToken": case(adr(op["b"])), "quoteToken": adr(op["q"]), "buyPriceLow": str(float(x)), "buyPriceHigh": str(float(y)),
               "buyBudget": str(float(w)), "sellPriceLow": str(float(z)), "sellPriceHigh": str(float(z) + 1), "sellBudget": "0.3333333333333",
               "encoded": {"id": bn(id_), "token0": adr(op["b"]), "token1": adr(op["q"]), "order0": order(0), "order1": order(100)}}][:op["how"]]
    try:
        if fn == "has":
            ev["has"] = boolean(sdk.mHasLiquidityByPair(pair, sells))
        elif fn == "hasmany":
            pairs = [pair, f"{tic(b3)}/{tic(q3)}"]
            pairs = {1: ", ".join(pairs), 2: pairs, 3: [CarbonPair(p) for p in pairs]}[op["how"]]
            ev["rows"] = [{"pair": conv(r["pair"]), "sells": tokno(r["AMMsells"]), "has": boolean(r["hasLiquidity"])} for r in sdk.mHasLiquidityByPairs(pairs)]
        elif fn in ("liq", "depth"):
            if fn == "liq":
                r = sdk.mGetLiquidityByPair(pair, sells)
                ev["amounts"] = [rat(r.amount)]
            else:
                r = sdk.mGetRateLiquidityDepthByPair(x if op["opt"] == 1 else [x, y, z], pair, sells)
                ev["amounts"] = [rat(r.amount)] if op["opt"] == 1 and r.amount is not None else [ratn(v) for v in r.amount]
                ev.update(islist=boolean(r.islist), inverted=boolean(r.inverted), rates=[rat(v) for v in (r.rate if isinstance(r.rate, (list, tuple)) else [r.rate])])
            ev.update(unit=tokno(r.unit), ammsells=tokno(r.AMMsells), side=string(r.bidAsk), pair=conv(r.pair))
        elif fn == "range":
            r = sdk.mGetRangeByPair(pair, sells)
            ev.update(start=rat(r.startRate), end=rat(r.endRate), ammsells=tokno(r.AMMsells), ammbuys=tokno(r.AMMbuys), side=string(r.bidAsk), pair=conv(r.pair), inverted=boolean(r.inverted))
        elif fn == "market":
            r = sdk.mGetMarketByPair(pair)
            ev.update(pair=conv(r.pair), pair2=conv(r.cpair), bid=rat(r.bestBid), ask=rat(r.bestAsk), liqbid=rat(r.liqBid), liqask=rat(r.liqAsk), lastbid=rat(r.lastBid), lastask=rat(r.lastAsk),
                      inverted=boolean(r.inverted), mid=rat(r.mid), spread=rat(r.spread), pc=rat(r.spreadpc), units=[tokno(r.liqBidUnit), tokno(r.liqAskUnit)],
                      amm=[tokno(r.bidAMMSells), tokno(r.askAMMSells)], trader=[tokno(r.bidTraderSells), tokno(r.askTraderSells)], conv=string(r.price_convention),
                      ibid=rat(r.ibid(w)), iask=rat(r.iask(w)), iall=rat(r.iall(w)))
        elif fn == "create":
            lo, hi = (x, y) if op["k"] % 2 else (x + z + w, y + z + w)
            ev.update(lo=rat(lo), hi=rat(hi))
            over = {} if op["opt"] == 1 else None if op["opt"] == 2 else {"gasLimit": 5}
            r = sdk.mCreateStrategy(pair, lo, hi, a, z, w, 3, over)
            ev["r"] = flat(r)
        elif fn == "prepare":
            word = "HOLD" if op["bad"] == 1 else sdk.BUY if op["flag"] else sdk.SELL
            tkn = [t for t, _, _ in TOKENS if t not in pair.split("/")][0] if op["bad"] == 2 else sells
            if op["bad"] == 3:
                # a token without address, and a container that does not complain
                sdk.Tokens, had = TokenContainer(list(sdk.Tokens), raiseonerror=False), sdk.Tokens
                try:
                    r = sdk.mPrepareTrade("ZZZ/" + tkn if op["flag"] else tkn + "/ZZZ", word, tkn if op["k"] % 2 else "ZZZ", a)
                finally:
                    sdk.Tokens = had
            else:
                r = sdk.mPrepareTrade(pair, word, tkn, a)
            ev.update(pair=conv(r.pair), tkn=tokno(r.tkn), word=string(r.traderBuySell), amount=rat(r.amount), source=tokno(r.sourceToken.a), target=tokno(r.targetToken.a),
                      bytarget=boolean(r.tradeByTargetAmount), actions=flat(r.tradeActions), wei=flat(r.actionsWei), res=flat(r.actionsTokenRes), data=flat(r.tradeData))
            if op["how"] == 1:
                srv.seen[:] = srv.seen[:1]
                sdk.mComposeTradeTransaction(*r.cttargs)
            elif op["how"] == 2:
                sdk.mComposeTradeTransaction(**r.cttkwargs)
        elif fn == "compose":
            kw = {} if op["opt"] == 1 else {"maxDeviationPc": 0.5, "deadline": op["k"]} if op["opt"] == 2 else {"maxDeviationPc": 0, "overrides": {"gasLimit": 5}}
            T = sdk.Tokens
            r = sdk.mComposeTradeTransaction(T[tic(op["b"])], T[tic(op["q"])], [{"id": id_, "amount": int(op["zz"])}], {"totalSourceAmount": x, "totalTargetAmount": y}, op["flag"], **kw)
            ev["r"] = flat(r)
        else:
            r = sdk.mGetUserStrategies("0xabc") if op["opt"] == 4 else sdk.mGetUserStrategies("0xabc", nsd=nsd)
            ev["nsd"] = "None" if nsd is None else str(8 if nsd is True else nsd)
            ev["strats"] = [{"sid": rat(s.sid), "base": tokno(s.baseToken), "quote": tokno(s.quoteToken), "names": [tokno(nm) if isinstance(nm, str) else -1 for nm in (s.baseTokenName, s.quoteTokenName)],
                             "f": [rat(s[f]) for f in ("buyPriceLow", "buyPriceHigh", "buyBudget", "sellPriceLow", "sellPriceHigh", "sellBudget")],
                             "esid": rat(s.encoded["id"]), "tok": [tokno(s.encoded.token0), tokno(s.encoded.token1)], "raw": flat(json.loads(s.encoded.raw_json)),
                             "orders": [[rat(o[f]) for f in "yzAB"] for o in (s.encoded.order0, s.encoded.order1)], "same": boolean(rat(s["id"]) == rat(s.sid))} for s in r]
    except (ValueError, RuntimeError, AssertionError):
        ev["ok"] = False
    ev["reqs"] = [dict(r) for r in srv.seen]
    return ev


# ------------------------------------------------------------------ encoded orders
def enc(op, st):
    from carbon.sdk import CarbonSDK
    E = CarbonSDK.EncodedOrder
    ev = {**op, "ok": True}
    f = lambda s: float(Fraction(s))
    if op["fn"] == "float":
        e = E.encodeFloat(int(op["v"]))
        ev.update(e=rat(e), d=rat(E.decodeFloat(e)), f=rat(E.decode(e)))
    elif op["fn"] == "rate":
        ev.update(e=rat(E.encodeRate(f(op["lo"]))), lo=rat(f(op["lo"])))
    else:
        lo, hi, marg = f(op["lo"]), f(op["hi"]), f(op["marg"])
        y, z = int(op["y"]), int(op["z"])
        tok = "TOK" if op["tk"] else None
        ev.update(lo=rat(lo), hi=rat(hi), marg=rat(marg))
        try:
            if op["mode"] == "yzAB":
                o = E.encode_yzAB(y, z, int(hi * 2 ** 48), int(lo * 2 ** 48), token=tok)
            else:
                kw = {"plain": {}, "z": {"z": z}, "marg": {"p_marg": marg}, "both": {"p_marg": marg, "z": z}}[op["mode"]]
                o = E.encode(y, hi, lo, token=tok, **kw)
        except (ValueError, ZeroDivisionError):
            ev["ok"] = False
            return ev
        o2 = E.from_sdk(o.token, {k: o[k] for k in "yzAB"})
        d = o.decoded
        ev.update(oy=rat(o.y), oz=rat(o.z), A=rat(o.A), B=rat(o.B), tok=string(o.token), same=boolean(o2 == o), dec=[rat(d.y), rat(d.z), rat(d.A), rat(d.B)],
                  start=rat(o.p_start), end=rat(o.p_end))
        try:
            ev["pm"] = rat(o.p_marg)
        except NotImplementedError:
            ev["pm"] = "None"
    return ev


# ------------------------------------------------------------------ containers of tokens
def entry(n):
    if n <= 5:
        return TOKENS[n - 1]
    other = "0x0000000000000000000000000000000000000006"
    return {6: ("ETH", other, 18), 7: ("BAR", TOKENS[0][1], 18), 8: ("QUX", "0x8", 18), 9: ("QUX", other, 18),
            10: ("WETH", "0x00000000000000000000000000000000000f0001", 18), 11: ("BTC", "0x00000000000000000000000000000000000f", 18),
            12: ("LIN", "2260fac5e5542a773aa44fbcfedf7c193bc2c599", 18), 13: ("FOO2", "0x00000000000000000000000000000000000f00000", 18), 14: ("ETHER", "0xf0000", 18)}[n]


def cased(s, cs):
    return s if cs == 1 else s.lower() if cs == 2 else s.upper().replace("0X", "0x")


def tok(op, st):
    from carbon.sdk.sdktoken import TokenContainer, SDKToken, NULTKN
    fn = op["fn"]
    bool3 = {"N": None, "T": True, "F": False}
    ev = {**op, "ok": True, "got": "None"}

    def show(r):
        """what was found"""
        if r is None:
            return "None"
        if isinstance(r, str):
            return "text " + r.lower()
        if r.isnul:
            return "nul"
        return f"{r.T} {r.a}"

    try:
        if fn == "make":
            es = [entry(n) for n in op["es"]]
            if op["how"] == "list":
                c = TokenContainer.fromlist(es, bool3[op["raise"]])
            elif op["how"] == "csv":
                c = TokenContainer.fromcsv("\n" + "\n".join(", ".join(map(str, e)) for e in es) + "\n", bool3[op["raise"]])
            else:
                c = TokenContainer([SDKToken(f" {e[0].lower()} ", e[1].upper().replace("0X", "0x"), e[2]) for e in es], bool3[op["raise"]])
            st["c"] = c
        c = st.get("c")
        if fn == "token":
            good = op["i"] % 2
            t = SDKToken(" " + cased(tic(min(op["i"], 5)), op["cs"]) + " ", cased(TOKENS[min(op["i"], 5) - 1][1], op["cs"]) if good else "0xnothing", "18", "a name" if op["flag"] else None)
            ev["tuple"] = [string(t.token), string(t.address), str(integer(t.decimals)), string(t.name)]
            ev["same"] = boolean(t.T == t.token and t.a == t.address and t.d == t.decimals and list(t) == [t.token, t.address, t.decimals, t.name] and not t.isnul)
            return ev
        if c is None:
            return {"op": "none", "wf": True}
        i = op["i"]
        e = entry(i)
        kw = {"raiseonerror": bool3[op["r2"]]}
        if fn in ("byticker", "byaddr"):
            r = getattr(c, fn)(cased(e[0] if fn == "byticker" else e[1], op["cs"]), returnnultkn=op["nul"], **kw)
            ev["got"] = show(r)
        elif fn == "byaddr1":
            ev["got"] = show(c.byaddr1(cased(e[1], op["cs"]), op["flag"]))
        elif fn == "call":
            ev["got"] = show(c(cased(e[1], op["cs"])))
        elif fn == "contains":
            ev["holds"] = boolean(c.containsall({entry(n)[0] for n in op["set"]}))
        elif fn == "item":
            ev["got"] = show(c[cased(e[0], op["cs"])])
        elif fn == "attr":
            ev["got"] = show(getattr(c, cased(e[0], op["cs"])))
        elif fn == "restore":
            arg = SDKToken(*e) if op["what"] == "obj" else cased(e[0] if op["what"] == "ticker" else e[1], op["cs"])
            ev["got"] = show(c.restore(arg, **kw))
        elif fn == "list":
            ev["all"] = [show(t) for t in c]
            ev["n"] = integer(len(c))
        elif fn == "wei":
            t = SDKToken(*entry(i))
            x = float(Fraction(op["x"]))
            ev.update(dec=integer(t.d), wei=rat(t.t2w(x)), back=rat(t.w2t(t.t2w(x))), x=rat(x))
    except (ValueError, KeyError):
        ev["ok"] = False
    return ev


# ------------------------------------------------------------------ strategies of the contracts, in the simulator
def strat(op, st):
    from carbon import CarbonOrderUI, CarbonSimulatorUI
    f = lambda k: str(float(Fraction(op[k])))
    base = "FUBAR" if op["unk"] == 1 else tic(op["b"])
    quote = "NOSUCH" if op["unk"] == 2 else tic(op["q"])
    ob = {"y": bn(int(op["y0"])), "z": bn(int(op["z0"])), "A": bn(5), "B": bn(6)}
    oq = {"y": bn(int(op["y1"])), "z": bn(int(op["z1"])), "A": bn(7), "B": bn(8)}
    if not op["enc"]:
        ob = {k: int(v["hex"], 16) for k, v in ob.items()}
        oq = {k: int(v["hex"], 16) for k, v in oq.items()}
    toks = [quote, base] if op["swap"] else [base, quote]
    ords = [oq, ob] if op["swap"] else [ob, oq]
    if op["bad"]:
        toks[0] = "OTHER"
    s = {"id": bn(op["id"]) if op["enc"] else op["id"], "baseToken": base, "quoteToken": quote, "buyPriceLow": f("buylo"), "buyPriceHigh": f("buyhi"), "buyBudget": f("bb"),
         "sellPriceLow": f("sello"), "sellPriceHigh": f("selhi"), "sellBudget": f("sb"),
         "encoded": {"id": op["id"], "token0": toks[0], "token1": toks[1], "order0": ords[0], "order1": ords[1]}}
    ev = {**op, "ok": True}
    nsd = None if op["nsd"] == 0 else op["nsd"] + 2
    ev["nsd"] = "None" if nsd is None else str(nsd)
    for k in ("buylo", "buyhi", "bb", "sello", "selhi", "sb"):
        ev[k] = rat(float(s[{"buylo": "buyPriceLow", "buyhi": "buyPriceHigh", "bb": "buyBudget", "sello": "sellPriceLow", "selhi": "sellPriceHigh", "sb": "sellBudget"}[k]]))

    def show(o):
        from carbon import CarbonPair
        return {"tkn": string(o.tkn), "pair": [string(o.pair.tknb), string(o.pair.tknq)], "pa": rat(o.pa), "pb": rat(o.pb), "y": rat(o.y), "yint": rat(o.yint), "id": str(o.id), "linked": str(o.linked.id)}

    try:
        if op["fn"] == "ui":
            buy, sell = CarbonOrderUI.from_SDK(s, nsd)
            ev.update(buy=show(buy), sell=show(sell))
        else:
            Sim = CarbonSimulatorUI(pair=f"{base}/{quote}" if op["nsd"] % 2 else None)
            r = Sim.add_fromsdk(s, nsd)
            rows = records(Sim.state()["orders"])
            ev["rows"] = [{"tkn": string(o["tkn"]), "pair": string(o["pair"]), "y": rat(o["y"]), "yint": rat(o["y_int"]), "start": rat(o["p_start"]), "end": rat(o["p_end"]), "id": str(o["id"]), "lid": str(o["lid"])} for o in rows]
            ev["answer"] = isinstance(r, dict) and len(r.get("orders", [])) == 2
    except (ValueError, AssertionError):
        ev["ok"] = False
    return ev


OPS = {"cfg": client, "call": client, "ask": client, "serve": client, "result": client, "m": market, "enc": enc, "tok": tok, "strat": strat}


def run(plan, emit):
    SERVER[0] = Server()
    st = {"server": SERVER[0], "mkt": plan["mkt"]}
    for op in plan["ops"]:
        ev = OPS[op["op"]](op, st)
        if ev["op"] == "none":
            continue
        ev["wf"] = True
        emit(ev)


if __name__ == "__main__":
    main(run, limit=20, head=lambda plan: {"mkt": plan["mkt"]})
