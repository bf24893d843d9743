"""Driver: arbitrage graphs."""
import copy
import math
from types import SimpleNamespace
from common import *
import carbon.tools.arbgraphs as ag
from carbon.tools.cpc import ConstantProductCurve as CPC, CPCContainer

REFUSALS = (ValueError, AssertionError, KeyError, ZeroDivisionError, TypeError, ag.nx.NetworkXException)


def name(x):
    return "None" if x is None else str(x)


def opt(s):
    return None if s == "None" else s


def edge(e):
    if not isinstance(e, ag.Edge):
        raise NotAValue(repr(e))
    try:
        rem = rat(e.state.amount_in_remaining)
    except ValueError:
        rem = "None"
    return {"i": string(e.node_in.tkn), "a": rat(e.amount_in), "o": string(e.node_out.tkn), "b": rat(e.amount_out),
            "inv": boolean(e.inverse), "uid": name(e.uid), "rem": rem}


def ixof(e):
    return -1 if e.ix is None else integer(e.ix)


def snap(G):
    nodes, edges = list(G.nodes), list(G.edges)
    tokens = [n.tkn for n in nodes]
    for e in edges:             # edges are between the nodes of the graph
        for x in (e.node_in, e.node_out):
            if not any(x is n for n in nodes):
                raise NotAValue(f"node {x} of edge {e} is not in the graph")
    return {"nodes": [{"t": string(n.tkn), "bal": rat(n.state.amount), "hist": [rat(v) for v in n.state.amount_.history]} for n in nodes],
            "edges": [edge(e) for e in edges], "nix": [ixof(n) for n in nodes], "eix": [ixof(e) for e in edges],
            "found": all(G.node_by_tkn(t) is n and G.node_by_ix(k) is n and G.node_by_tkn(n) is n for k, (t, n) in enumerate(zip(tokens, nodes))),
            "len": [integer(len(G)), *[integer(x) for x in G.len()]], "kind": name(G.edgetype), "isamount": boolean(G.is_amounttype)}


def amount(a):
    if not isinstance(a, ag.Amount):
        raise NotAValue(repr(a))
    n = a.node
    return {"v": rat(a.amount), "t": n.tkn if isinstance(n, ag.Node) else string(n)}


def where(G, es):
    """positions of edges in the graph"""
    r = []
    for e in es:
        k = [i for i, x in enumerate(G.edges) if x is e]
        if len(k) != 1:
            raise NotAValue(f"edge {e} is not one of the graph's")
        r.append(k[0])
    return r


def stats(G, s):
    if s is None:
        return {"none": True}
    return {"none": False, "len": integer(s.len), "ixs": where(G, s.edges), "ain": amount(s.amount_in), "rem": amount(s.amount_in_remaining),
            "aout": amount(s.amount_out), "price": rat(s.price), "util": rat(s.utilization), "ains": [rat(x) for x in s.amounts_in],
            "rems": [rat(x) for x in s.amounts_in_remaining], "aouts": [rat(x) for x in s.amounts_out], "prices": [rat(x) for x in s.prices],
            "utils": [rat(x) for x in s.utilizations]}


def runres(r):
    c = r.cycle
    return {"cycle": [string(n.tkn) for n in c.data], "uid": name(c.uid), "start": integer(r.start_ix), "token": string(r.token), "profit": rat(r.profit),
            "ain": rat(r.amount_in), "aout": rat(r.amount_out), "length": integer(r.length), "r": rat(r.r), "rpcs": rat(r.rpcs), "ppcs": rat(r.ppcs),
            "tokens": string(r.tokens())}


def curve(c):
    return CPC.from_univ2(x_tknb=num(c["x"]), y_tknq=num(c["y"]), pair=f"{c['b']}/{c['q']}", fee=0, cid=c["cid"], descr="d")


def matrix(a):
    return [[integer(x) for x in row] for row in a.toarray().tolist()]


def run(plan, emit):
    G = ag.ArbGraph()

    for op in plan["ops"]:
        k = op["op"]
        ev = {**op, "wf": True}

        def call(f, *a, **kw):
            """the result, and whether there is one"""
            try:
                r = f(*a, **kw)
            except REFUSALS as e:
                ev["ok"] = False
                return None
            ev["ok"] = True
            return r

        if k == "new":
            t = op["toks"]
            if op["how"] == "string":
                G = ag.ArbGraph(nodes=list(ag.create_node_list(", ".join(t))) if t else [])
            elif op["how"] == "nodes":
                G = ag.ArbGraph()
                for x in t:
                    if G.add_node_obj(ag.Node(x)) is not G:
                        raise NotAValue("add_node_obj")
            else:
                G = ag.ArbGraph()
                for x in t:
                    if G.add_node(x) is not G:
                        raise NotAValue("add_node")
            ev["ok"] = True
        elif k == "addE":
            r = call(G.add_edge, op["i"], num(op["a"]), op["o"], num(op["b"]), inverse=op["inv"], uid=opt(op["uid"]))
            ev["self"] = r is G
        elif k == "addXY":
            r = call(G.add_edge_dxdy, op["i"], num(op["dx"]), op["o"], num(op["dy"]), inverse=op["inv"], uid=opt(op["uid"]))
            ev["self"] = r is G
        elif k == "addC":
            kw = dict(inverse=op["inv"], weight=num(op["w"]), symmetric=op["sym"], uid=opt(op["uid"]))
            h, p = op["how"], num(op["p"])
            if h == "price":
                kw.update(price=p)
            elif h == "outperin":
                kw.update(price_outperin=p)
            elif h == "outinv":
                kw.update(price_outperin=p, inverse=True)
            elif h == "two":
                kw.update(price_outperin=p, price=p)
            r = call(G.add_edge_connectiontype, op["i"], op["o"], **kw)
            ev["self"] = r is G
        elif k == "addCpc":
            cs = [curve(c) for c in op["cs"]]
            ev["ps"] = [rat(c.p) for c in cs]
            h = op["how"]
            if h == "from":
                r = call(ag.ArbGraph.from_cc, CPCContainer(cs))
                if r is not None:
                    G = r
            else:
                arg = cs[0] if h == "single" else CPCContainer(cs) if h == "cc" else (c for c in cs) if h == "gen" else cs
                r = call(G.add_edges_cpc, arg)
            ev["self"] = r is G
        elif k == "fromT":
            CC = CPCContainer([curve(c) for c in op["cs"]])
            dx, dy = [num(d[0]) for d in op["d"]], [num(d[1]) for d in op["d"]]
            if op["how"] == "cc":
                r = call(ag.ArbGraph.from_ccdxdy, CC, dx, dy, ignorezero=op["ignore"])
            else:
                r = call(ag.ArbGraph.from_r, SimpleNamespace(curves=CC, dxvalues=dx, dyvalues=dy), ignorezero=op["ignore"])
            if r is not None:
                G = r
            ev["self"] = True
        elif k == "fund":
            n = G.node_by_tkn(op["t"])
            if op["inc"]:
                n.state.amount += num(op["v"])
            else:
                n.state.amount = num(op["v"])
        elif k == "fundall":
            for n in G.nodes:
                n.state.amount = num(op["v"])
        elif k == "nreset":
            G.node_by_tkn(op["t"]).reset_state(num(op["v"]))
        elif k == "ereset":
            G.edge_by_ix(op["ix"]).reset_state(num(op["v"]))
        elif k == "trE":
            e = G.edge_by_ix(op["ix"])
            a = num(op["amt"])
            if a is not None and op["how"] == "amount":
                a = ag.Amount(a, e.node_in)
            elif op["how"] == "wrong":
                a = ag.Amount(1 if a is None else a, e.node_out)
            r = call(e.transport, a, record=op["rec"], raiseonerror=op["rse"])
            if ev["ok"]:
                ev["res"] = amount(r)
                ev["isnode"] = r.node is e.node_out
                if G.is_amounttype:
                    ev["cap"] = boolean(e.has_capacity)
                    ev["empty"] = boolean(e.state.is_empty)
        elif k == "trG":
            i, o, a, h, kw = op["i"], op["o"], num(op["amt"]), op["how"], {}
            if h == "node":
                i, o = G.node_by_tkn(i), (G.node_by_tkn(o) if o in [n.tkn for n in G.nodes] else o)
            elif h == "amount":
                a = ag.Amount(a, G.node_by_tkn(i))
            elif h == "wrong":
                a = ag.Amount(a, ag.Node("other"))
            elif h == "algo":
                kw["routingalgo"] = "best"
            elif h == "miss":
                i = "nowhere"
            r = call(G.transport, a, i, o, record=op["rec"], raiseonerror=op["rse"], **kw)
            if ev["ok"]:
                ev["res"] = {"ain": amount(r.amount_in), "aout": amount(r.amount_out), "ains": [rat(x) for x in r.amounts_in],
                             "aouts": [rat(x) for x in r.amounts_out], "ixs": where(G, r.edges)}
        elif k == "reset":
            ev["self"] = G.reset_state() is G
        elif k == "edge":
            e, f, m = G.edge_by_ix(op["ix"]), G.edge_by_ix(op["jx"]), num(op["m"])
            ev["q"] = {"price": rat(e.price()), "pt": rat(e.price(inverse=True)), "pf": rat(e.price(inverse=False)), "out": rat(e.price_outperin), "out2": rat(e.p_outperin),
                       "p": rat(e.p()), "pair": string(e.pair()), "pairt": string(e.pair(True)), "pairf": string(e.pair(False)), "conv": string(e.convention()),
                       "convt": string(e.convention(True)), "convf": string(e.convention(False)), "convo": string(e.convention_outperin()),
                       "type": string(e.edgetype), "isamount": boolean(e.is_amounttype), "tin": string(e.tkn_in), "tout": string(e.tkn_out),
                       "eq": boolean(e == f), "label": string(e.label)}

            def made(fn):
                try:
                    r = fn()
                except REFUSALS:
                    return {"ok": False}
                return {"ok": True, "e": edge(r), "fresh": not any(r is x for x in G.edges), "ix": ixof(r)}
            ev["sum"] = made(lambda: e + f)
            ev["sum3"] = made(lambda: sum([e, f, e]))
            ev["mul"] = made(lambda: e * m)
            ev["rmul"] = made(lambda: m * e)
            ev["rev"] = made(lambda: e.reverse())
            ev["dup"] = made(lambda: e.duplicate())
            ev["plus0"] = made(lambda: e + 0)
            ev["asserts"] = [made(lambda: (e.assert_edgetype(t), e)[1])["ok"] for t in (e.EDGE_AMOUNT, e.EDGE_CONNECTION)]
        elif k == "cap":
            r = call(G.has_capacity, opt(op["i"]), opt(op["o"]))
            ev["res"] = boolean(r) if ev["ok"] else False
        elif k == "es":
            i, o, h = op["i"], op["o"], op["how"]
            if h == "nodes":
                r = call(G.edge_statistics, i, o)
            elif h == "objs":
                r = call(lambda: G.edge_statistics(G.node_by_tkn(i), G.node_by_tkn(o)))
            elif h == "both":
                r = call(G.edge_statistics, i, o, bothways=True)
            elif h == "pair":
                r = call(G.edge_statistics, pair=f"{i}/{o}")
            elif h == "alledges":
                r = call(G.edge_statistics, edges=tuple(G.edges))
            else:
                r = call(lambda: G.edge_statistics(edges=tuple(G.filter_edges(i, o))))
            if ev["ok"]:
                ev["res"] = [stats(G, x) for x in (r if h in ("both", "pair") else [r])]
        elif k == "ns":
            s = call(G.node_statistics, op["t"])
            if ev["ok"]:
                ev["res"] = {"t": string(s.node.tkn), "ins": where(G, s.edges_in), "outs": where(G, s.edges_out), "nin": sorted(string(x) for x in s.nodes_in),
                             "nout": sorted(string(x) for x in s.nodes_out), "ain": amount(s.amount_in), "aout": amount(s.amount_out), "rem": amount(s.amount_out_remaining)}
        elif k == "fe":
            i, o, h = opt(op["i"]), opt(op["o"]), op["how"]
            both = {"None": None, "yes": True, "no": False}[op["both"]]
            def obj(t):
                return None if t is None else G.node_by_tkn(t)
            if h == "nodes":
                r = call(G.filter_edges, i, o, bothways=both)
            elif h == "objs":
                r = call(lambda: G.fe(node_in=obj(i), node_out=obj(o), bothways=both))
            elif h == "pair":
                r = call(G.fep, f"{i}/{o}", bothways=both)
            elif h == "node":
                r = call(G.filter_edges, node=i, bothways=both)
            elif h == "nodeand":
                r = call(G.filter_edges, o, node=i or "ETH")
            else:
                r = call(G.filter_edges, i or "ETH", pair="ETH/USDC")
            ev["res"] = where(G, r) if ev["ok"] else []
        elif k == "dup":
            D = G.duplicate(consolidate=op["cons"])
            ev["res"] = snap(D)
            ev["fresh"] = not any(x is y for x in D.nodes for y in G.nodes) and not any(x is y for x in D.edges for y in G.edges)
            # what is done to the copy is not done to the graph
            if op["then"] == "fund":
                for n in D.nodes:
                    n.state.amount = 77
            elif op["then"] == "add" and D.edges:
                e = list(D.edges)[0]
                if D.is_amounttype:
                    D.add_edge("NEW", 1, e.tkn_in, 1)
                else:
                    D.add_edge_connectiontype("NEW", e.tkn_in)
        elif k == "cyc":
            cs = G.cycles()
            ev["res"] = [[string(n.tkn) for n in c.data] for c in cs]
            ev["uids"] = [name(c.uid) for c in cs]
            ev["gen"] = [[string(n.tkn) for n in c.data] for c in G.cycles(asgenerator=True)]
            ev["own"] = all(c.graph is G and all(any(n is m for m in G.nodes) for n in c.data) for c in cs)
            ev["byid"] = all(ag.Cycle.byid(cs, c.uid) is c for c in cs) and ag.Cycle.byid(cs, "x") is None
        elif k == "run":
            cs = G.cycles()
            if not cs or not G.is_amounttype:
                continue
            c = cs[op["k"] % len(cs)]
            kw = dict(allow_any_token=op["any"])
            ev["cyc"] = [string(n.tkn) for n in c.data]
            r = call(c.run, opt(op["token"]), **kw) if op["how"] == "cycle" else call(G.run_arbitrage_cycle, c, opt(op["token"]), **kw)
            if ev["ok"]:
                ev["res"] = runres(r)
                ev["same"] = r.cycle is c
        elif k == "runs":
            cs = G.cycles()
            if not cs or not G.is_amounttype:
                continue
            ev["cycs"] = [[string(n.tkn) for n in c.data] for c in cs]
            f = opt(op["format"])
            r = call(lambda: G.run_arbitrage_cycles(cs, opt(op["token"]), format=f))
            if ev["ok"]:
                ev["rows"] = []
                if f in (None, "gen", "tuple"):
                    ev["kind"] = type(r).__name__
                    ev["rows"] = [{k2: v for k2, v in runres(x).items()} for x in r]
                elif f == "dicts":
                    ev["kind"] = type(r).__name__
                    ev["rows"] = [{"uid": name(x["uid"]), "token": string(x["token"]), "profit": rat(x["profit"]), "ain": rat(x["amount_in"]), "aout": rat(x["amount_out"]),
                                   "length": integer(x["length"]), "r": rat(x["r"]), "rpcs": rat(x["rpcs"]), "ppcs": rat(x["ppcs"]), "tokens": string(x["tokens"])} for x in r]
                else:
                    ev["kind"] = type(r).__name__
                    for x in records(r.reset_index()):
                        ev["rows"].append({"uid": name(x["uid"]), "token": string(x["token"]), "profit": rat(x["profit"]), "ain": rat(x["amount_in"]), "aout": rat(x["amount_out"])})
        elif k == "pt":
            cs = G.cycles()
            if op["how"] == "cycle":
                if not cs:
                    continue
                path = cs[op["k"] % len(cs)]
                nodes = list(path.data) + [path.data[0]]
            else:
                path = call(G.shortest_path, G.node_by_tkn(op["i"]), G.node_by_tkn(op["o"]))
                if not ev["ok"]:
                    path = None
                nodes = list(path.data) if path is not None else []
            ev["nodes"] = [string(n.tkn) for n in nodes]
            if path is not None:
                r = call(G.ptransport, path)
                if ev["ok"]:
                    ev["res"] = {"m": rat(r.multiplier), "prices": [rat(x) for x in r.prices], "nums": [integer(x) for x in r.numedges], "same": r.path is path and r.cycle is path}
        elif k == "sp":
            r = call(G.shortest_path, G.node_by_tkn(op["i"]), G.node_by_tkn(op["o"]))
            ev["res"] = [string(n.tkn) for n in r.items()] if ev["ok"] else []
        elif k == "price":
            i, o, h = op["i"], op["o"], op["how"]
            have = [n.tkn for n in G.nodes]
            if h in ("objs", "mix") and i in have:
                i = G.node_by_tkn(i)
            if h == "objs" and o in have:
                o = G.node_by_tkn(o)
            r = call(G.price, i, o, with_units=op["units"])
            if ev["ok"]:
                ev["res"], ev["unit"] = (rat(r[0]), string(r[1])) if op["units"] else (rat(r), "None")
        elif k == "ptab":
            ns = list(G.nodes)
            kw = {}
            if op["inc"] != "None":
                kw["include"] = ns[:2] if op["inc"] == "first2" else ns[1:]
            if op["exc"] != "None":
                kw["exclude"] = ns[:1]
            r = call(G.pricetable, asdf=op["df"], **kw)
            if ev["ok"]:
                if op["df"]:
                    ev["res"] = {"cols": [string(x) for x in r.columns], "rows": [string(x) for x in r.index], "data": [[rat(x) for x in row] for row in r.values.tolist()]}
                else:
                    ev["res"] = {"cols": list(r["labels"]), "rows": list(r["labels"]), "data": [[rat(x) for x in row] for row in r["data"]]}
        elif k == "shape":
            ev["adj"] = matrix(G.Adjacency(include_eigenvalues=False))
            ev["adjp"] = matrix(G.A)
            ev["adju"] = matrix(G.Adjacency(directed=False, include_eigenvalues=False))
            ev["lap"] = matrix(G.L)
            ev["lap2"] = matrix(G.Laplacian()[0])
            def degs(d):
                return [integer(d[n]) for n in sorted(d)]
            ev["deg"], ev["ind"], ev["outd"] = degs(G.degree()), degs(G.in_degree()), degs(G.out_degree())
            ev["degm"] = [[integer(x) for x in row] for row in G.degree(as_matrix=True).tolist()]
            ev["weak"] = boolean(G.is_weakly_connected)
            N = G.as_graph()
            ev["nx"] = {"n": integer(N.number_of_nodes()), "e": sorted([integer(a), integer(b)] for a, b in N.edges()), "tkn": [string(N.nodes[i]["tkn"]) for i in sorted(N.nodes)]}
        elif k == "df":
            kw = {}
            if op["sub"]:
                kw["edges"] = G.edges[:1]
            r = call(G.edgedf, consolidated=op["cons"], resetindex=op["resetindex"], **kw)
            if ev["ok"]:
                ev["index"] = [name(x) for x in r.index.names]
                ev["rows"] = [{c: (ratn(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else ("true" if v else "false") if isinstance(v, bool) else name(v)) for c, v in x.items()}
                              for x in records(r.reset_index() if ev["index"] != ["None"] else r)]
        elif k == "cycle":
            c = ag.Cycle(list(op["main"]), uid="m")
            s = ag.Cycle(list(op["sub"]), uid="s")
            kw = {"ix": dict(start_ix=op["ix"]), "val": dict(start_val=op["main"][op["ix"]]), "none": {}, "both": dict(start_ix=0, start_val=op["main"][0])}[op["how"]]
            r = call(lambda: ([integer(x) for x in c.items(**kw)], [[integer(x), integer(y)] for x, y in c.pairs(**kw)]))
            if ev["ok"]:
                ev["items"], ev["pairs"] = r
            ev["len"] = integer(len(c))
            ev["sub1"] = boolean(s.is_subcycle_of(c))
            ev["self1"] = boolean(c.is_subcycle_of(c))
            f = c.filter_subcycles([s, c] if op["list"] else s)
            ev["filtered"] = [string(x.uid) for x in f]
            p = ag.Path(list(op["main"]), uid="p")
            ev["pitems"], ev["ppairs"] = [integer(x) for x in p.items()], [[integer(x), integer(y)] for x, y in p.pairs()]
        elif k == "amt":
            n = ag.Node("ETH")
            m = n if op["same"] else ag.Node("ETH")
            x, y = num(op["x"]), num(op["y"])
            a, b = ag.Amount(x, n), ag.Amount(y, m)
            F = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * y, "rmul": lambda: y * a, "div": lambda: a / b, "divs": lambda: a / y, "neg": lambda: -a,
                 "pos": lambda: +a, "abs": lambda: abs(a), "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
                 "round": lambda: round(a), "floor": lambda: math.floor(a), "ceil": lambda: math.ceil(a), "trunc": lambda: math.trunc(a), "eq": lambda: a == b,
                 "copy": lambda: copy.copy(a), "addn": lambda: a + y, "muln": lambda: a * b, "radd": lambda: y + a, "rsub": lambda: y - a}
            r = call(F[op["f"]])
            if ev["ok"]:
                if isinstance(r, ag.Amount):
                    ev["res"] = {"kind": "amount", "v": rat(r.amount), "node": r.node is n}
                elif isinstance(r, bool):
                    ev["res"] = {"kind": "bool", "v": "1" if r else "0", "node": False}
                else:
                    ev["res"] = {"kind": "number", "v": rat(r), "node": False}
            ev["kept"] = a.amount == x and b.amount == y
        else:
            raise NotAValue(k)
        ev["g"] = snap(G)
        emit(ev)


main(run)
