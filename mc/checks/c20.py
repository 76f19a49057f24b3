"""C20: configuration layers, for every option of the parsers and every way of giving it
(default, file, command line in every spelling), all pairs of options, and the derived
settings, against a three-line model of precedence."""
import contextlib
import itertools
import os
import tempfile
from argparse import Namespace, ArgumentParser

import numpy as np
import yaml

from ..core import Suite
from .. import env
env.prepare()
from .. import kern as K
from forcepho import config as C

PROPERTY = "C20"
ASSUMPTIONS = ["parsers without required arguments", "an empty value (null) in the file or an unset argument means not given",
               "environment variables are expanded in plain text options, not inside lists"]
VAR = "FPMC_DIR"
os.environ[VAR] = "/data/field"


@contextlib.contextmanager
def folder():
    import shutil
    d = tempfile.mkdtemp(dir=K.scratch())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def quiet(f, *a, **k):
    with open(os.devnull, "w") as o, contextlib.redirect_stdout(o):
        return f(*a, **k)


def parser(kind):
    if kind == "pre":
        p = C.preprocess_config_parser()
    else:
        p = C.main_config_parser(FITS=kind == "fits")
    have = {a.dest for a in p._actions}
    p.add_argument("--config_file", type=str, default=None)
    if "store_directory" not in have:
        p.add_argument("--store_directory", type=str, default="")
    p.add_argument("--title", type=str, default="$%s/x" % VAR)
    p.add_argument("--flag", action="store_true")
    p.add_argument("--short", "-s", type=int, default=7)
    p.add_argument("--dash-name", type=float, default=0.5)
    p.add_argument("--n_sig_flux", type=float, default=None)
    p.add_argument("--lst", type=int, nargs="*", default=[1, 2])
    return p


def actions(kind):
    return [a for a in parser(kind)._actions if a.dest not in ("help", "config_file")]


def values(a):
    """values for the command line (two), as text and as parsed"""
    if a.nargs == 0:
        return [([], True)]
    if "dtype" in a.dest:
        return [(["float64"], "float64"), ([a.default], a.default)]
    n = a.nargs
    if n == 2:
        v = [([f"{3 + i}" for i in range(2)], [a.type(3 + i) for i in range(2)])]
    elif n == "*":
        v = [(["5"], [a.type("5")]), (["6", "7", "8"], [a.type(x) for x in ("6", "7", "8")]), ([], [])]
    elif a.type is str:
        v = [(["given"], "given"), (["$%s/g" % VAR], "$%s/g" % VAR), ([""], "")]
    else:
        v = [(["3"], a.type("3")), (["0"], a.type("0"))]
    if isinstance(a.default, (int, float)) and not isinstance(a.default, bool):      # equal to the default
        v.append(([repr(a.type(a.default))], a.type(a.default)))
    elif isinstance(a.default, str) and a.default:
        v.append(([a.default], a.default))
    elif isinstance(a.default, list) and a.default:
        v.append(([str(x) for x in a.default], [a.type(x) for x in a.default]))
    return v


def file_value(a, k=0):
    if a.nargs == 0:
        return True
    if "dtype" in a.dest:
        return "float16"
    if a.nargs in (2, "*"):
        return [[11, 12], [13.5, 14.5]][k] if a.type is not str else ["u", "v"]
    if a.type is str:
        return ["$%s/filed" % VAR, "plain"][k]
    return [21, 0][k]


def spellings(a, kind, txt):
    dests = [x.option_strings for x in parser(kind)._actions]
    every = [o for d in dests for o in d if o.startswith("--")]
    long = [o for o in a.option_strings if o.startswith("--")][0]
    out = [[long] + txt]
    if len(txt) == 1:
        out.append([f"{long}={txt[0]}"])
    for n in range(3, len(long)):       # shortest unambiguous abbreviation
        if sum(o.startswith(long[:n]) for o in every) == 1:
            out.append([long[:n]] + txt)
            break
    for o in a.option_strings:
        if not o.startswith("--"):
            out.append([o] + txt)
            if len(txt) == 1 and txt[0]:
                out.append([o + txt[0]])
    # given twice: the last one counts
    if a.nargs is None and a.type is not str:
        out.append([long, "99", long] + txt)
    return out


DT = dict(float32=np.float32, float64=np.float64, float16=np.float16)


def model(kind, cli, fil):
    """precedence: command line, file, default; then the derived forms"""
    p = parser(kind)
    cfg = {a.dest: a.default for a in p._actions if a.dest != "help"}
    cfg.update({k: v for k, v in fil.items() if v is not None})
    cfg.update(cli)
    sd = cfg.get("store_directory")
    if sd:
        for s in ("pixelstorefile", "metastorefile", "psfstorefile"):
            if cfg.get(s) is not None and s in cfg:
                cfg[s] = os.path.join(sd, cfg[s])
    out = {}
    for k, v in cfg.items():
        if isinstance(v, str):
            v = DT[v] if "dtype" in k else v.replace("$" + VAR, os.environ[VAR]).replace("${%s}" % VAR, os.environ[VAR])
        out[k] = v
    b = {}
    for f in ("sqrtq_range", "sersic_range", "rhalf_range", "pa_range", "dpos", "n_sig_flux", "n_pix", "pixscale"):
        if out.get(f) is not None:
            b[f] = out[f]
    out["bounds_kwargs"] = b
    return out


def same(g, w):
    if isinstance(w, list):
        return isinstance(g, np.ndarray) and g.shape == np.array(w).shape and np.array_equal(g, np.array(w))
    if isinstance(g, (np.ndarray, list)):
        return False
    if isinstance(w, bool) or isinstance(g, bool):
        return g is w or (type(g) == type(w) and g == w)
    return g == w and (isinstance(w, type) or type(g) == type(w) or isinstance(w, (int, float)))


def compare(ctx, got, want, where):
    g = dict(vars(got))
    g.pop("config_file", None)
    w = dict(want)
    w.pop("config_file", None)
    ctx.check(set(g) == set(w), f"{where}: options {sorted(set(g) ^ set(w))} are missing or extra")
    for k in w:
        if k == "bounds_kwargs":
            ctx.check(set(g[k]) == set(w[k]), f"{where}: bounds settings {sorted(g[k])}, set are {sorted(w[k])}")
            for f in w[k]:
                ctx.check(same(g[k][f], w[k][f]), f"{where}: bounds setting {f} is {g[k][f]!r}, it should be {w[k][f]!r}")
        else:
            ctx.check(same(g[k], w[k]), f"{where}: {k} is {g[k]!r}, it should be {w[k]!r}")
    ctx.step()


def run(kind, argv, fil, d, ctx, how="cli", twice=False):
    """parse_all with the file named on the command line / as default / through read_config"""
    p = parser(kind)
    full = ["prog"] + list(argv)
    if fil is not None:
        fn = os.path.join(d, "conf.yml")
        if how != "dict":
            with open(fn, "w") as f:
                yaml.dump(fil, f)
        if how == "cli":
            full += ["--config_file", fn]
        elif how == "first":
            full = full[:1] + [f"--config_file={fn}"] + full[1:]
        elif how == "default":
            p.set_defaults(config_file=fn)
        elif how == "dict":
            p.set_defaults(config_file=dict(fil))
    keep = list(full)
    defs = {k: (list(v) if isinstance(v, list) else v) for k, v in vars(p.parse_args([])).items()}
    out = quiet(C.parse_all, p, full)
    ctx.check(full == keep, f"{argv}: the command line was changed")
    ctx.check({k: v for k, v in vars(p.parse_args([])).items()} == defs, f"{argv}: the parser's defaults were changed")
    if twice:
        again = quiet(C.parse_all, p, full)
        compare(ctx, again, {k: (list(v) if isinstance(v, np.ndarray) else v) for k, v in vars(out).items() if k != "bounds_kwargs"} | {"bounds_kwargs": {k: (list(v) if isinstance(v, np.ndarray) else v) for k, v in out.bounds_kwargs.items()}}, f"{argv}: parsing again")
    return out


def run_single(case, ctx):
    kind, dest = case
    a = next(x for x in actions(kind) if x.dest == dest)
    with folder() as d:
        n = 0
        for fv in ("no file", "absent", None, 0, 1):
            fil = None if fv == "no file" else {"other": 3, "Mixed_Case": 4.5, "table": {"a": 1}, "note": "${%s}/n" % VAR} if fv == "absent" else {"note": "x", dest: None if fv is None else file_value(a, fv)}
            for how in ("cli", "first", "default", "dict") if fil is not None else ("cli",):
                want = model(kind, {}, fil or {})
                compare(ctx, run(kind, [], fil, d, ctx, how, twice=how == "cli"), want, f"{kind} {dest}, file {fil} ({how})")
                n += 1
                for txt, val in values(a):
                    for s in spellings(a, kind, txt):
                        want = model(kind, {dest: val}, fil or {})
                        compare(ctx, run(kind, s, fil, d, ctx, how), want, f"{kind} {s}, file {fil} ({how})")
                        n += 1
        ctx.extra_states += n - 1
    ctx.trace()
    ctx.outcome(case)


LEV = ["default", "file", "cli", "both"]


def run_pair(case, ctx):
    kind, d1, d2 = case
    acts = {a.dest: a for a in actions(kind)}
    with folder() as d:
        for l1, l2 in itertools.product(LEV, LEV):
            argv, fil, cli = [], {}, {}
            for dest, lev, i in ((d1, l1, 0), (d2, l2, 0)):
                a = acts[dest]
                if lev in ("file", "both"):
                    fil[dest] = file_value(a, i)
                if lev in ("cli", "both"):
                    txt, val = values(a)[0]
                    argv += spellings(a, kind, txt)[0]
                    cli[dest] = val
            compare(ctx, run(kind, argv, fil or None, d, ctx), model(kind, cli, fil), f"{kind}: {argv}, file {fil}")
        ctx.extra_states += 15
    ctx.outcome(case)


STORE = ["", "/stores", "$%s/st" % VAR, "rel/dir"]
NAMES = [None, "a.h5", "/abs/b.h5", "$%s/c.h5" % VAR, "sub/d.h5"]


def run_store(case, ctx):
    """store names under the store directory, from either layer, through parse_all and read_config"""
    sd, layer, names = case
    with folder() as d:
        vals = dict(zip(("pixelstorefile", "metastorefile", "psfstorefile"), names))
        vals["store_directory"] = sd
        if layer == "file":
            fil, cli = {k: v for k, v in vals.items()}, {}
        elif layer == "cli":
            fil, cli = {}, {k: v for k, v in vals.items() if v is not None}
        else:                   # directory in the file, names on the command line
            fil, cli = {"store_directory": sd}, {k: v for k, v in vals.items() if v is not None and k != "store_directory"}
        argv = [x for k, v in cli.items() for x in (f"--{k}", v)]
        compare(ctx, run("store", argv, fil or None, d, ctx, twice=True), model("store", cli, fil), f"{argv}, file {fil}")
        # read_config: only the file and the arguments
        fn = os.path.join(d, "c.yml")
        yaml.dump(dict(fil, pa_range=[-1, 1], my_dtype="float64", n_pix=4), open(fn, "w"))
        args = Namespace(**{k: cli.get(k) for k in list(cli) + ["unset"]})
        got = quiet(C.read_config, fn, args)
        base = dict(fil, pa_range=[-1, 1], my_dtype="float64", n_pix=4)
        base.update(cli)
        w = {}
        for k, v in base.items():
            if k.endswith("storefile") and base.get("store_directory") and v is not None:
                v = os.path.join(base["store_directory"], v)
            if isinstance(v, str):
                v = DT[v] if "dtype" in k else v.replace("$" + VAR, os.environ[VAR])
            w[k] = v
        w["bounds_kwargs"] = dict(pa_range=[-1, 1], n_pix=4)
        compare(ctx, got, w, f"read_config of {base}")
        ctx.check(vars(args) == {k: cli.get(k) for k in list(cli) + ["unset"]}, "the arguments were changed")
    ctx.outcome(case)


def run_bounds(case, ctx):
    """bounds settings: exactly those that are set"""
    mask = case
    f = ["sqrtq_range", "sersic_range", "rhalf_range", "pa_range", "dpos", "n_sig_flux", "n_pix", "pixscale"]
    for zero in (False, True):
        v = {k: (([0.0, 0.0] if zero else [0.1 * (i + 1), 5.0 + i]) if i < 5 else (0 if zero else 1.5 + i)) for i, k in enumerate(f) if mask >> i & 1}
        for none in (False, True):
            ns = Namespace(other=4, rhalf=3.0, **v)
            if none:
                for k in f:
                    if k not in v:
                        setattr(ns, k, None)
            got = C.make_bounds_kwargs(ns)
            ctx.check(set(got) == set(v), f"bounds settings {sorted(got)}, set are {sorted(v)}")
            ctx.check(all(got[k] == v[k] for k in v), f"bounds settings {got}, they are {v}")
            r = C.rectify_config(Namespace(**vars(ns)))
            ctx.check(set(r.bounds_kwargs) == set(v) and all(np.array_equal(r.bounds_kwargs[k], v[k]) for k in v), f"rectified bounds settings {r.bounds_kwargs}")
            # and they are accepted by the scene
            if not zero:
                from forcepho.superscene import make_bounds, sourcecat_dtype
                cat = np.zeros(2, dtype=sourcecat_dtype(bands=["B"]))
                b = make_bounds(cat, ["B"], **r.bounds_kwargs)
                for k, c in (("sqrtq_range", "q"), ("sersic_range", "sersic"), ("rhalf_range", "rhalf"), ("pa_range", "pa")):
                    if k in v:
                        ctx.check(np.allclose(b[c], v[k]), f"bounds of {c}: {b[c].tolist()}, configured {v[k]}")
            ctx.step()
    ctx.outcome(mask)


def suites(tier):
    q = tier == "quick"
    pairs = []
    for kind in ("fits", "store", "pre"):
        ds = [a.dest for a in actions(kind)]
        pairs += [(kind, x, y) for i, x in enumerate(ds) for j, y in enumerate(ds) if i < j and (not q or kind == "pre" or (i + j) % 3 == 0)]
    return [
        Suite("single", [(k, a.dest) for k in ("fits", "store", "pre") for a in actions(k)], run_single, note="every option of the three parsers x layers x values (also the default and empty ones) x spellings x ways of naming the file"),
        Suite("pairs", pairs, run_pair, note="pairs of options (a third of them in quick) x 4 layers each"),
        Suite("stores", [(s, l, list(n)) for s in STORE for l in ("file", "cli", "mixed") for n in itertools.product(NAMES, repeat=3) if not q or n[0] is None or n[1] in (None, "a.h5") or n[2] == n[0]], run_store, note="store directories x names x layers"),
        Suite("bounds", list(range(256)), run_bounds, note="all subsets of the 8 bounds settings"),
    ]
