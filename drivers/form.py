"""Driver: the controls of the notebooks, and the range guard."""
import builtins
from common import *
from carbon.helpers import widgets as W
from carbon.helpers import soltest as S
import ipywidgets as ipw
from traitlets import TraitError

shown = []
builtins.display = shown.append        # what a notebook provides
NAMES = ["alpha", "beta", "ETH", "x y", "7", "USDC", "z", "last", "q"]


def form(op, labels):
    """the choices, in the form asked for; what their ids and descriptions are"""
    ids = NAMES[op["first"]:op["first"] + op["n"]]
    how = op["how"]
    if how == "ints":
        return list(range(op["first"], op["first"] + op["n"])), [str(k) for k in range(op["first"], op["first"] + op["n"])], None
    if how == "dict":
        d = {i: f"the {i}" for i in ids}
        return d, ids, list(d.values())
    return (tuple(ids) if how == "tuple" else list(ids)), ids, None


def new(op, ev):
    kind = op["kind"]
    choices, ids, descr = form(op, False)
    ev.update(kind=kind, ids=ids, descr=descr or ids)
    kw = {}
    if kind == "check":
        ev["vals"] = {"k": op["vk"], "x": op["x"], "v": op["v"]}
        ev["dis"] = {"k": op["dk"], "x": False, "v": op["d"]}
        objs = [f"obj{k}" for k in range(op["no"])]
        ev["objs"] = {"k": op["ok"], "x": "", "v": objs}
        if op["dk"] != "none":
            kw["disabled"] = tuple(op["d"]) if op["x"] else list(op["d"])
        if op["how"] == "idv":
            ev["descr"] = ids
            return W.CheckboxManager.from_idvdct(dict(zip(ids, op["v"])), **kw)
        if op["vk"] != "none":
            kw["values"] = op["x"] if op["vk"] == "all" else [int(b) for b in op["v"]] if op["first"] == 1 else tuple(op["v"])
        if op["ok"] != "none":
            kw["objects"] = objs
        return W.CheckboxManager(choices, **kw)
    if kind == "slide":
        ev["vals"] = {"k": op["vk"], "x": op["x"], "v": op["v"]}
        ev["dis"] = {"k": op["dk"], "x": False, "v": op["d"]}
        ev["pm"] = {"k": op["pk"], "x": op["px"], "v": op["p"]}
        ev["range"] = {"k": op["rk"], "x": op["rx"], "v": op["r"]}
        f = lambda r: tuple(float(Fraction(x)) for x in r)
        if op["vk"] != "none":
            kw["values"] = num(op["x"]) if op["vk"] == "all" else [num(x) for x in op["v"]]
        if op["dk"] != "none":
            kw["disabled"] = op["d"]
        if op["pk"] != "none":
            kw["pm"] = op["px"] if op["pk"] == "all" else op["p"]
        if op["rk"] != "none":
            kw["range"] = f(op["rx"]) if op["rk"] == "all" else tuple(f(r) for r in op["r"])
        return W.PcSliderManager(choices, **kw)
    labels = [f"l-{i}" for i in ids] if op["lab"] else None
    ev["labels"] = labels or []
    ev["clash"] = bool(labels) and op["how"] == "dict"
    if labels:
        kw["labels"] = labels
        ev["descr"] = labels
    ev["byval"], ev["byix"] = op["dv"], op["di"]
    ev["front"] = "choose" if op["descr"] else ""
    if op["dv"]:
        kw["defaultval"] = ids[op["dv"] - 1]
    if op["di"] != "None":
        kw["defaultix"] = int(op["di"])
    if op["descr"]:
        kw["descr"] = "choose"
    return W.DropdownManager(choices, **kw)


def reading(c):
    if c is None:
        return {"kind": "none"}
    if isinstance(c, W.CheckboxManager):
        if c.vbox.children != c.checkboxes or c.hbox.children != c.checkboxes or not isinstance(c.vbox, ipw.VBox) or not isinstance(c.hbox, ipw.HBox):
            raise NotAValue("box")
        return {"kind": "check", "vals": [boolean(v) for v in c.values], "dct": [[string(k), boolean(v)] for k, v in c.values_dct.items()],
                "on": [string(x) for x in c.checked], "off": [string(x) for x in c.unchecked], "oon": [string(x) for x in c.objects()],
                "oon1": [string(x) for x in c.objects(True)], "ooff": [string(x) for x in c.objects(checked=False)],
                "box": [[string(b.description), boolean(b.value), boolean(b.disabled)] for b in c.checkboxes], "init": [boolean(v) for v in c.initial_values]}
    if isinstance(c, W.PcSliderManager):
        if c.vbox.children != c.sliders or c.hbox.children != c.sliders:
            raise NotAValue("box")
        return {"kind": "slide", "vals": [rat(v) for v in c.values], "dct": [[string(k), rat(v)] for k, v in c.values_dct.items()],
                "range": [[rat(float(x)) for x in r] for r in c.range],
                "box": [[string(b.description), rat(b.value), rat(b.min), rat(b.max)] for b in c.sliders], "dis": [boolean(b.disabled) for b in c.sliders]}
    return {"kind": "drop", "value": string(c.value), "label": string(c.label), "result": [string(x) for x in c.result],
            "opts": [[string(a), string(b)] for a, b in c.dropdown.options], "front": string(c.dropdown.description)}


def use(c, op, ev):
    i = op["i"] - 1
    ev["ok"] = True
    if isinstance(c, W.CheckboxManager):
        if i < len(c.checkboxes):
            c.checkboxes[i].value = op["b"]
    elif isinstance(c, W.PcSliderManager):
        c.sliders[i].value = float(Fraction(op["x"]) * 100)
        ev["x"] = rat(float(Fraction(op["x"]) * 100))
    elif c is not None:
        if op["how"] == "index":
            c.dropdown.index = i
        elif op["how"] == "value":
            c.dropdown.value = c.options[i]
        else:
            c.dropdown.label = c.labels[i]


def show(c, op, ev):
    if c is None:
        return
    del shown[:]
    drop = isinstance(c, W.DropdownManager)
    how = op["how"]
    if how == "call":
        c()
    elif how == "default" or drop:
        c.display()
    else:
        c.display(vertical=how == "yes")
    w, = shown
    ev["widget"] = "drop" if w is getattr(c, "dropdown", 0) else "vbox" if isinstance(w, ipw.VBox) else "hbox" if isinstance(w, ipw.HBox) else "?"
    if not drop and w.children != (c.checkboxes if isinstance(c, W.CheckboxManager) else c.sliders):
        raise NotAValue("box")


def number(op, ev):
    kw = {}
    if op["pl"] >= 0:
        kw["print_lvl"] = op["pl"]
    if op["rl"] >= 0:
        kw["raise_lvl"] = op["rl"]
    s = S.SolTestBase(**kw)
    x = int(op["x"])
    out = []
    val = x + 0.5 if op["frac"] and x > 0 else x
    S.print = lambda *a: out.append(a)
    log = []
    ev.update(raised="None", val="None", printed=[], log=[])
    try:
        lab = op["label"] or None
        if op["via"] == "log":
            r = s.check_uint256(val, lab, log_f=lambda **k: log.append(k))
            ev["log"] = [{"level": integer(k["level"]), "over": boolean(k["isoverflow"]), "label": string(k["label"]), "msg": string(k["msg"])} for k in log]
        else:
            r = s(val, lab) if op["via"] == "call" else s.check_uint256(val, label=lab)
        ev["val"] = rat(r)
    except (S.SolTestBase.OutOfBoundsError, S.SolTestBase.OutOfBoundsWarning) as e:
        ev["raised"] = type(e).__name__
    finally:
        del S.print
    ev["printed"] = [string(a[0]) for a in out]


def run(plan, emit):
    ctl = {}
    for op in plan["ops"]:
        o = op["op"]
        ev = {"op": o, "wf": True}
        if o == "num":
            ev.update({k: op[k] for k in ("x", "pl", "rl", "label", "via")})
            ev["upper"] = op["label"].upper()
            number(op, ev)
            emit(ev)
            continue
        ev["slot"] = op["slot"]
        c = ctl.get(op["slot"])
        if o == "new":
            try:
                ctl[op["slot"]] = new(op, ev)
                ev["ok"] = True
            except (ValueError, TraitError):
                ctl[op["slot"]] = None
                ev["ok"] = False
        elif o == "use":
            ev.update({k: op[k] for k in ("i", "b", "x", "how")})
            use(c, op, ev)
        else:
            ev["how"], ev["widget"] = op["how"], "none"
            show(c, op, ev)
        ev["now"] = [reading(ctl.get(k)) for k in (1, 2, 3)]
        emit(ev)


if __name__ == "__main__":
    main(run, limit=30)
