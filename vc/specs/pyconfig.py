"""C23: contracts of the way from the configuration to the model objects (geomodelgrids/create/core/model.py constructors, utils/config.py, apps/create_model.py cli):
every number, text and list of the model is the configured one.

Texts are uninterpreted values; float(), int() and the parts of a list text are functions of the text."""
import ast
import z3
from ..pyvc import *
from ..pyvc import TXT, tterm, otext
from .pystore import LIB, MODEL_ATTRS, same_value, program

MODEL = "geomodelgrids.create.core.model:"
CONF = "geomodelgrids.create.utils.config:"
APP = "geomodelgrids.create.apps.create_model:"
FLOAT, INT = ufun("float_of_text", TXT, R), ufun("int_of_text", TXT, I)
NITEM, ITEM = ufun("num_items", TXT, TXT, I), ufun("item", TXT, TXT, I, TXT)


def num(t):
    """a configured text (configparser and string_to_list strip blanks)"""
    return Opaque("text", "str", truth=True, term=t, attrs={"float": FLOAT(t), "int": INT(t), "stripped": True})


def text(name):
    return num(z3.Const("cfg_" + name, TXT))


def items(run, t, delim=","):
    d = tterm(delim)
    run.assume(NITEM(t, d) >= 1)
    return Seq(NITEM(t, d), lambda i: num(ITEM(t, d, term(i))), "list")


def c_string_to_list(run, args, kw):
    p = dict(zip(["list_string", "delimiter"], args))
    p.update(kw)
    v, d = run.force(p["list_string"]), run.force(p.get("delimiter", ","))
    if isinstance(v, (list, tuple)) or isinstance(v, Seq) and v.typ == "list":
        return v
    if tterm(v) is None or tterm(d) is None:
        raise Unsupported("string_to_list of %r" % (v,))
    return items(run, tterm(v), d)


def grid_config(kinds, block, pre=""):
    c = {"chunk_size": text(pre + "chunk_size")}
    for ax, k in zip("xyz" if block else "xy", kinds):
        n = ax + ("_resolution" if k == "u" else "_coordinates")
        c[n] = text(pre + n)
    if block:
        c["z_top_offset"] = text(pre + "z_top_offset")
        if kinds[2] == "u":
            c["z_top"], c["z_bot"] = text(pre + "z_top"), text(pre + "z_bot")
    return c


def numbers(run, v, want, fn):
    """v is the sequence fn(item) of the items of the text"""
    if not isinstance(v, Seq):
        return False
    w = items(run, want.term)
    k = iv("any_item")
    run.assume(z3.And(0 <= k, k < term(w.n)))
    x = v.fn(k)
    return z3.And(term(v.n) == term(w.n), term(x) == fn(w.fn(k).term)) if isnum(x) else z3.BoolVal(False)


def iv(n):
    return z3.Int(n)


def grid_task(cls, kinds):
    block = cls == "Block"

    def setup(run):
        cfg = grid_config(kinds, block)
        md, st, nm = Obj("metadata", {}, partial=True), Obj("storage", {}, partial=True), text("name")
        c = run.find(MODEL + cls)
        return dict(call=lambda run: run.call(c, [nm, md, cfg] + ([] if block else [st]), {}), cfg=cfg, md=md, st=st, nm=nm)

    def post(run, env, ret):
        if not isinstance(ret, Obj):
            return [("an object", False)]
        a, cfg, out = ret.attrs, env["cfg"], []
        out.append(("the name is the given one", isinstance(a.get("name"), Opaque) and a["name"].term is not None and a["name"].term == env["nm"].term))
        out.append(("the metadata are those of the model", a.get("model_metadata") is env["md"]))
        if not block:
            out.append(("the storage is that of the model", a.get("storage") is env["st"]))
        for ax, k in zip("xyz" if block else "xy", kinds):
            r, c = ax + "_resolution", ax + "_coordinates"
            if k == "u":
                out.append(("%s is the configured number" % r, isnum(a.get(r)) and real(a[r]) == FLOAT(cfg[r].term)))
                out.append(("%s is not set" % c, c in a and a[c] is None))
            else:
                out.append(("%s are the configured numbers" % c, numbers(run, a.get(c), cfg[c], FLOAT)))
                out.append(("%s is not set" % r, r in a and a[r] is None))
        out.append(("chunk_size are the configured numbers", numbers(run, a.get("chunk_size"), cfg["chunk_size"], INT)))
        if block:
            out.append(("z_top_offset is the configured number", isnum(a.get("z_top_offset")) and real(a["z_top_offset"]) == FLOAT(cfg["z_top_offset"].term)))
            if kinds[2] == "u":
                for n in ("z_top", "z_bot"):
                    out.append(("%s is the configured number" % n, isnum(a.get(n)) and real(a[n]) == FLOAT(cfg[n].term)))
            else:
                w = items(run, cfg["z_coordinates"].term)
                i, j = iv("some_coordinate"), iv("other_coordinate")
                if not (isnum(a.get("z_top")) and isnum(a.get("z_bot"))):
                    return out + [("z_top and z_bot are numbers", False)]
                t, b = real(a["z_top"]), real(a["z_bot"])
                run.assume(z3.And(0 <= i, i < term(w.n)))
                run.instantiate(i)
                f = FLOAT(w.fn(i).term)
                out.append(("z_top and z_bot bound the coordinates", z3.And(b <= f, f <= t)))
        return out
    return PyTask(MODEL + cls + ".__init__", setup, post, name="%s.__init__ (%s)" % (cls, kinds), contracts={"string_to_list": c_string_to_list}, lib=LIB)


def config_sections(aux):
    g = {n: text(n) for n in ("title", "id", "description", "keywords", "history", "comment", "version", "creator_name", "creator_email", "creator_institution", "acknowledgement", "authors",
                              "references", "repository_name", "repository_url", "repository_doi", "license", "filename", "data_source")}
    c = {"geomodelgrids": g, "coordsys": {n: text(n) for n in ("crs", "origin_x", "origin_y", "y_azimuth")},
         "data": {n: text(n) for n in ("values", "units", "layout")}, "domain": {n: text(n) for n in ("dim_x", "dim_y", "dim_z", "blocks")}}
    if aux:
        c["data"]["auxiliary"] = text("auxiliary")
    return c


WHERE = {"data_values": ("data", "values"), "data_units": ("data", "units"), "data_layout": ("data", "layout"), "auxiliary": ("data", "auxiliary")}
for _n in ("crs", "origin_x", "origin_y", "y_azimuth"):
    WHERE[_n] = ("coordsys", _n)
for _n in ("dim_x", "dim_y", "dim_z"):
    WHERE[_n] = ("domain", _n)
DELIM = {"authors": "|", "references": "|"}
JSON = ufun("json_value", TXT, TXT)


def json_loads(run, a, k):
    t = tterm(a[0])
    if t is None or k or len(a) != 1:
        raise Unsupported("json.loads")
    return Opaque("json value", "dict", truth=True, term=JSON(t))


CLIB = dict(LIB, json={"loads": Builtin("json.loads", json_loads), "dumps": Builtin("json.dumps", lambda run, a, k: Opaque("json", "str", truth=True))})


def metadata_task(aux):
    def setup(run):
        cfg = config_sections(aux)
        c = run.find(MODEL + "ModelMetadata")
        return dict(call=lambda run: run.call(c, [cfg], {}), cfg=cfg)

    def post(run, env, ret):
        out = []
        vertex = tterm("vertex")
        out.append(("only the vertex layout is accepted", env["cfg"]["data"]["layout"].term == vertex))
        for n, kind in MODEL_ATTRS.items():
            sec, key = WHERE.get(n, ("geomodelgrids", n))
            v, w = ret.attrs.get(n), env["cfg"][sec].get(key)
            if kind == "f":
                g = isnum(v) and real(v) == FLOAT(w.term)
            elif kind == "l":
                g = same_value(run, v, items(run, w.term, DELIM.get(n, ",")))
            elif kind == "d":
                g = (isinstance(v, Opaque) and v.term is not None and v.term == JSON(w.term)) if aux else isinstance(v, dict) and not v
            elif n == "data_layout":
                g = tterm(v) is not None and tterm(v) == w.term
            else:
                g = same_value(run, v, w)
            out.append(("%s is the configured one" % n, g))
        return out

    def exc(run, env, e):
        return [("an exception means that the layout is not supported (%s)" % e.cls, z3.And(env["cfg"]["data"]["layout"].term != tterm("vertex"), z3.BoolVal(e.cls == "NotImplementedError")))]
    return PyTask(MODEL + "ModelMetadata.__init__", setup, post, exc_post=exc, name="ModelMetadata.__init__ (%s)" % ("auxiliary data" if aux else "no auxiliary data"),
                  contracts={"string_to_list": c_string_to_list}, lib=CLIB)


def model_task(top, bathy):
    """Model.__init__: one block per configured name, in order, from the section of that name; the surfaces that are configured"""
    def setup(run):
        names = text("blocks")
        sections = {"domain": {"blocks": names}, "geomodelgrids": {"filename": text("filename")}}
        if top:
            sections["top_surface"] = Obj("section", {"of": "top_surface"}, partial=True)
        if bathy:
            sections["topography_bathymetry"] = Obj("section", {"of": "topography_bathymetry"}, partial=True)

        def getitem(run, a, k):
            x = run.force(a[0])
            if isinstance(x, str):
                if x not in sections:
                    raise Raised("KeyError", line=run.line)
                return sections[x]
            return Obj("section", {"of": tterm(x)}, partial=True)

        def has(run, a, k):
            if not isinstance(a[0], str):
                raise Unsupported("membership")
            return a[0] in sections
        cfg = Obj("config", {}, partial=True, methods={"__getitem__": getitem, "__contains__": has, "get": lambda run, a, k: sections.get(a[0], a[1] if len(a) > 1 else None)})
        run.ghost["cfg"], run.ghost["made"] = cfg, []
        c = run.find(MODEL + "Model")
        return dict(call=lambda run: run.call(c, [cfg], {}), names=names)

    def ctor(name, params):
        def f(run, a, k):
            p = dict(zip(params, a))
            p.update(k)
            if set(p) != set(params):
                raise Raised("TypeError", line=run.line)
            return Obj(name, {"args": Opaque("arguments", attrs=p)} if False else dict(p), partial=True)
        return f

    def c_meta(run, a, k):
        p = a[0] if a else k["config"]
        if p is not run.ghost["cfg"]:
            raise Unsupported("configuration")
        run.ghost["md"] = Obj("metadata", {}, partial=True)
        return run.ghost["md"]

    def post(run, env, ret):
        a, out = ret.attrs, []
        md = run.ghost.get("md")
        out.append(("the metadata are those of the configuration", md is not None and a.get("metadata") is md))
        st = a.get("storage")
        out.append(("the storage file is the configured one", isinstance(st, Obj) and st.cls == "storage" and tterm(st.attrs.get("filename")) is not None
                    and tterm(st.attrs["filename"]) == z3.Const("cfg_filename", TXT)))
        for attr, sec, on in (("top_surface", "top_surface", top), ("topo_bathy", "topography_bathymetry", bathy)):
            s = a.get(attr)
            if not on:
                out.append(("%s is not set" % attr, attr in a and s is None))
                continue
            ok = isinstance(s, Obj) and s.cls == "surface" and s.attrs["name"] == sec and s.attrs["model_metadata"] is md and isinstance(s.attrs["config"], Obj) and s.attrs["config"].attrs.get("of") == sec \
                and s.attrs["storage"] is st
            out.append(("%s is made from its section" % attr, bool(ok)))
        b = a.get("blocks")
        w = items(run, env["names"].term)
        if not isinstance(b, Seq):
            return out + [("one block per name", False)]
        k = iv("any_block")
        run.assume(z3.And(0 <= k, k < term(w.n)))
        x, t = b.fn(k), w.fn(k).term
        ok = isinstance(x, Obj) and x.cls == "block" and x.attrs["model_metadata"] is md and tterm(x.attrs["name"]) is not None and isinstance(x.attrs["config"], Obj) and isz(x.attrs["config"].attrs.get("of"))
        out.append(("one block per name", term(b.n) == term(w.n)))
        out.append(("a block is made from the section of its name, in order", z3.And(tterm(x.attrs["name"]) == t, x.attrs["config"].attrs["of"] == t) if ok else False))
        return out
    return PyTask(MODEL + "Model._initialize", setup, post, name="Model.__init__ (%s%s)" % ("top " if top else "", "bathymetry" if bathy else ""), lib=CLIB,
                  contracts={"string_to_list": c_string_to_list, "ModelMetadata": c_meta, "Block": ctor("block", ["name", "model_metadata", "config"]),
                             "Surface": ctor("surface", ["name", "model_metadata", "config", "storage"]), "HDF5Storage": ctor("storage", ["filename"])})


# ---------------------------------------------------------------- configuration files
def string_to_list_task(kind):
    def setup(run):
        f = run.find(CONF + "string_to_list")
        if kind == "list":
            v = [text("a"), text("b")]
            return dict(func=f, args=[v], v=v)
        t = text("list")
        n = ufun("text_length", TXT, I)(t.term)
        run.assume(n >= 2)
        d = None if kind == "text" else Opaque("delimiter", "str", truth=True, term=z3.Const("delimiter", TXT))
        return dict(func=f, args=[t] + ([d] if d is not None else []), t=t, d=d, n=n)

    def post(run, env, ret):
        if kind == "list":
            return [("a list is returned as it is", ret is env["v"])]
        if not isinstance(ret, Seq):
            return [("a list", False)]
        d = tterm(env["d"] if env["d"] is not None else ",")
        inner = ufun("substring", TXT, I, I, TXT)(env["t"].term, z3.IntVal(1), env["n"] - 2)
        n, part = ufun("num_parts", TXT, TXT, I)(inner, d), ufun("part", TXT, TXT, I, TXT)
        k = iv("any_item")
        run.assume(z3.And(0 <= k, k < n))
        x = tterm(ret.fn(k))
        return [("one item per part of the text between the brackets", term(ret.n) == n),
                ("an item is the part without blanks", x == ufun("strip", TXT, TXT)(part(inner, d, k)) if x is not None else False)]
    return PyTask(CONF + "string_to_list", setup, post, name="string_to_list (%s)" % kind, lib=LIB)


def get_config_task(keep):
    """every file is read, in the order given, with the case of the names kept; the sections are returned with their items"""
    names = ("geomodelgrids", "domain", "a block")

    def setup(run):
        log = []
        n, f = iv("num_files"), ufun("filename", I, TXT)
        run.assume(n >= 0)
        files = Seq(n, lambda i: num(f(term(i))), "list")
        exists = ufun("exists", TXT, B)
        p = Obj("parser", {}, partial=True)
        opts = {m: Obj("items", {"of": m}, partial=True) for m in names}

        def read(run, a, k):
            if len(a) != 1 or k and set(k) - {"encoding"}:
                raise Unsupported("ConfigParser.read")
            x = a[0][0] if isinstance(a[0], list) and len(a[0]) == 1 else a[0]
            log.append((run.loop is not None, x, p.attrs.get("optionxform")))

        def its(run, a, k):
            if k or len(a) != 1 or a[0] not in names:
                raise Unsupported("ConfigParser.items")
            return [("key", Opaque("value", "str", truth=True, term=z3.Const("items of " + a[0], TXT)))]
        p.methods.update(read=read, sections=lambda run, a, k: list(names), items=its)
        lib = run.lib
        lib["configparser"] = {"ConfigParser": Builtin("ConfigParser", lambda run, a, k: p if not a and not k else bad_parser())}
        lib["os"] = dict(lib.get("os", {}), path=Obj("os.path", {}, partial=True, methods={"isfile": lambda run, a, k: exists(tterm(a[0])), "exists": lambda run, a, k: exists(tterm(a[0]))}))
        lib["os.path"] = {m: Builtin(m, lambda run, a, k: exists(tterm(a[0]))) for m in ("isfile", "exists")}
        kw = {} if keep else {"keep_case": False}
        return dict(func=run.find(CONF + "get_config"), args=[files], kwargs=kw, log=log, files=files, f=f, n=n, exists=exists)

    def bad_parser():
        raise Unsupported("ConfigParser arguments")

    def post(run, env, ret):
        out, log = [], env["log"]
        k = iv("any_file")
        run.assume(z3.And(0 <= k, k < env["n"]))
        run.instantiate(k)
        ok = all(e[0] for e in log) and len(set(id(e) for e in log)) >= 1
        for e in log:
            ok = ok and (e[2] is not None) == keep and (not keep or isinstance(e[2], Type) and e[2].name == "str")
        its = [tterm(e[1]) for e in log]
        good = ok and all(t is not None and t.decl().name() == "filename" and z3.is_const(t.arg(0)) for t in its)
        out.append(("every file is read in its turn%s" % (" with the case of the names kept" if keep else ""), z3.Or(env["n"] == 0, z3.BoolVal(bool(good)))))
        out.append(("a missing file is an error", env["exists"](env["f"](k))))
        ok = isinstance(ret, dict) and list(sorted(ret)) == sorted(names)
        if ok:
            for m in names:
                v = ret[m]
                ok = ok and isinstance(v, dict) and list(v) == ["key"] and tterm(v["key"]) is not None and tterm(v["key"]).eq(z3.Const("items of " + m, TXT))
        out.append(("the sections with their items", bool(ok)))
        return out

    def exc(run, env, e):
        return [("an error means that a file is missing (%s)" % e.cls, z3.BoolVal(exc_is(e.cls, "OSError")))]
    return PyTask(CONF + "get_config", setup, post, exc_post=exc, name="get_config (%s)" % ("default" if keep else "lower case"), lib=LIB)


def initialize_task():
    def setup(run):
        c = run.find(APP + "App")
        app = Obj(c, {"config": None, "model": None, "show_progress": False}, partial=True)
        files = Obj("files", {}, partial=True)
        run.ghost["files"], run.ghost["cfg"] = files, Obj("config", {}, partial=True)
        return dict(func=c.find("initialize"), args=[app, files], app=app)

    def c_get(run, a, k):
        p = dict(zip(["filenames", "keep_case", "verbose"], a))
        p.update(k)
        if p.get("filenames") is not run.ghost["files"] or p.get("keep_case", True) is not True:
            return Obj("other config", {}, partial=True)
        return run.ghost["cfg"]
    lib = dict(LIB, importlib={"import_module": Builtin("import_module", lambda run, a, k: None)}, argparse={}, configparser={})
    return PyTask(APP + "App.initialize", setup, lambda run, env, ret: [("the configuration is that of the given files, with the case of the names kept", env["app"].attrs.get("config") is run.ghost["cfg"])],
                  name="App.initialize", contracts={"get_config": c_get}, lib=lib)


# ---------------------------------------------------------------- command line
FLAGS = {"show_parameters": "--show-parameters", "import_domain": "--import-domain", "import_surfaces": "--import-surfaces", "import_blocks": "--import-blocks",
         "update_metadata": "--update-metadata", "all_steps": "--all"}


def cli_task():
    """cli: the arguments of App.main are those of the command line"""
    def setup(run):
        opts, calls = {}, []

        def add_argument(run, a, k):
            names = [x for x in a if isinstance(x, str)]
            if len(names) != len(a) or not all(n.startswith("-") for n in names):
                raise Unsupported("positional argument")
            longs = [n for n in names if n.startswith("--")]
            dest = k.get("dest") or (longs[0] if longs else names[0]).lstrip("-").replace("-", "_")
            act = k.get("action", "store")
            if dest in opts or act not in ("store", "store_true", "store_false"):
                raise Unsupported("option %s" % dest)
            opts[dest] = (names, act, dict(k))

        def given(names):
            return z3.Bool("given " + sorted(names, key=len)[-1])

        def parse(run, a, k):
            if a and a[0] is not None or k:
                raise Unsupported("parse_args arguments")
            at = {}
            for d, (names, act, kw) in opts.items():
                g = given(names)
                if act == "store":
                    n = sorted(names, key=len)[-1]
                    at[d] = Opaque("value of " + n, "str", truth=True, term=z3.Const("value " + n, TXT))
                    if kw.get("type") is not None and not (isinstance(kw["type"], Type) and kw["type"].name == "str"):
                        at[d] = Opaque("converted", truth=True)
                else:
                    dflt = kw.get("default", act == "store_false")
                    val = act == "store_true"
                    at[d] = val if dflt == val else (g if val else z3.Not(g))
            return Obj(Class("Namespace", {}, None), at)
        parser = Obj("parser", {}, partial=True, methods={"add_argument": add_argument, "parse_args": parse})

        def main(run, a, k):
            f = run.find(APP + "App").find("main")
            names = [x.arg for x in f.node.args.args][1:]
            p = dict(zip(names, a))
            for n, v in k.items():
                if n not in names or n in p:
                    raise Raised("TypeError", line=run.line)
                p[n] = v
            for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
                p.setdefault(n, d)
            calls.append(p)
        run.ghost["app"] = Obj("app", {}, partial=True, methods={"main": main})
        run.lib["argparse"] = {"ArgumentParser": Builtin("ArgumentParser", lambda run, a, k: parser)}
        return dict(func=run.find(APP + "cli"), args=[], calls=calls)

    def post(run, env, ret):
        c = env["calls"]
        if len(c) != 1:
            return [("the application runs once", False)]
        p = c[0]
        t = tterm(p.get("config_filenames"))
        out = [("the configuration files are those of --config", t is not None and t == z3.Const("value --config", TXT))]
        for n, o in FLAGS.items():
            v = p.get(n)
            if isinstance(v, bool):
                v = z3.BoolVal(v)
            ok = isz(v) and v.sort() == B
            out.append(("%s is the switch %s" % (n, o), v == z3.Bool("given " + o) if ok else False))
        return out
    lib = dict(LIB, importlib={"import_module": Builtin("import_module", lambda run, a, k: None)}, configparser={})
    return PyTask(APP + "cli", setup, post, name="cli", contracts={"App": lambda run, a, k: run.ghost["app"]}, lib=lib)


def tasks():
    out = [grid_task("Surface", k) for k in ("uu", "uv", "vu", "vv")] + [grid_task("Block", a + b + c) for a in "uv" for b in "uv" for c in "uv"]
    out += [metadata_task(a) for a in (False, True)]
    out += [model_task(t, b) for t in (False, True) for b in (False, True)]
    out += [string_to_list_task(k) for k in ("list", "text", "delimiter")]
    out += [get_config_task(True), get_config_task(False), initialize_task(), cli_task()]
    return out
