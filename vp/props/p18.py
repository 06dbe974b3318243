"""P18: options are set exactly where addressed, and validation accepts exactly the allowed values."""
import re
import warnings

from dataprofiler.profilers import profiler_options as M
from dataprofiler.profilers.profiler_options import BaseOption, ProfilerOptions

from ..run import Harness

ASSUMPTIONS = [
    "booleans given for integer options and NaN given for ratios are not judged",
    "a rejected set may have changed some options already",
]


def leaves(opt, path=()):
    """every plain value of an option tree by its path"""
    out = {}
    for k, v in vars(opt).items():
        if isinstance(v, BaseOption):
            out.update(leaves(v, path + (k,)))
        else:
            out[path + (k,)] = v
    return out


def level(opt):
    names = dict(vars(opt))
    if isinstance(opt, M.NumericalOptions):
        names["is_numeric_stats_enabled"] = None
    return names


STATS = ("min", "max", "mode", "median", "sum", "variance", "skewness", "kurtosis",
         "median_abs_deviation", "histogram_and_quantiles")


class Unknown(Exception):
    pass


def addressed(opt, comps, star, path=()):
    """paths the dotted name addresses: a name found at a level continues there, any other is
    looked for below every option of the level"""
    names = level(opt)
    name, rest = comps[0], comps[1:]
    if name in names:
        v = names[name]
        if isinstance(v, BaseOption):
            if not rest:
                raise Unknown
            return addressed(v, rest, False, path + (name,))
        if rest:
            raise Unknown
        if name == "is_numeric_stats_enabled":
            group = STATS
            if not isinstance(opt, M.TextOptions):
                group += ("num_zeros", "num_negatives")
            return {path + (g, "is_enabled") for g in group}
        return {path + (name,)}
    if not rest and not star:
        raise Unknown
    out = set()
    for k, v in names.items():
        if isinstance(v, BaseOption):
            out |= addressed(v, comps, star, path + (k,))
    return out


SHARED = ("data_labeler_object", "data_labeler_dirpath", "text.is_enabled", "text.vocab")


def setting(ctx, names, length, star=True, cls="ProfilerOptions"):
    """any dotted path over the names"""
    opt = getattr(M, cls)()
    comps = [ctx.pick("c%d" % i, list(names)) for i in range(length)]
    use = bool(ctx.choose("star", 2)) if star else False
    text = ".".join((["*"] if use else []) + comps)
    before = leaves(opt)
    value = object()
    try:
        want = addressed(opt, comps, use)
    except Unknown:
        want = None
    if cls == "ProfilerOptions" and comps[0] not in (
            "structured_options", "unstructured_options") and not use and any(
            s in text for s in SHARED):
        want = None
    try:
        opt.set({text: value})
    except (AttributeError, ValueError, IndexError):
        ctx.check("only unknown or ambiguous paths are rejected", want is None)
        return
    ctx.check("unknown path rejected", want is not None)
    if want is None:
        return
    after = leaves(opt)
    ctx.check("no option appears or disappears", set(after) == set(before))
    for p in before:
        if p in want:
            ctx.check("addressed option set", after.get(p) is value)
        else:
            ctx.check("other option untouched", after.get(p) is before[p]
                      or after.get(p) == before[p])


def several(ctx, first, second):
    """later entries win, the others stay"""
    opt = ProfilerOptions()
    a, b = ctx.pick("a", list(first)), ctx.pick("b", list(second))
    va, vb = object(), object()
    before = leaves(opt)
    wa = addressed(opt, a.replace("*.", "").split("."), a.startswith("*"))
    wb = addressed(opt, b.replace("*.", "").split("."), b.startswith("*"))
    if ctx.choose("together", 2):
        opt.set({a: va, b: vb})
    else:
        opt.set({a: va})
        opt.set({b: vb})
    after = leaves(opt)
    for p in before:
        want = vb if p in wb else va if p in wa else before[p]
        if a == b and p in wa:
            want = vb
        ctx.check("last value given", after.get(p) is want or after.get(p) == want)


def valid(opt):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        errors = opt.validate(raise_error=False)
        try:
            opt.validate()
            raised = False
        except ValueError:
            raised = True
    return errors, raised


def judge(ctx, opt, allowed):
    errors, raised = valid(opt)
    ok = not errors
    ctx.check("raises exactly when there are errors", raised == (not ok))
    if ok:
        ctx.check("accepted value is allowed", allowed)
    else:
        ctx.check("rejected value is not allowed", ctx.not_(allowed))


POSITIVE = [
    "structured_options.%s.mode.top_k_modes", "structured_options.%s."
    "histogram_and_quantiles.num_quantiles", "structured_options.%s.histogram_and_quantiles."
    "bin_count_or_method"]
POSITIVE = [p % k for p in POSITIVE for k in ("int", "float", "text")] + [
    "structured_options.category.top_k_categories",
    "structured_options.row_statistics.unique_count.hll.register_count",
    "structured_options.data_labeler.max_sample_size",
    "unstructured_options.data_labeler.max_sample_size",
    "unstructured_options.text.top_k_chars", "unstructured_options.text.top_k_words"]
STOP = "structured_options.category.max_sample_size_to_check_stop_condition"
RATIO = "structured_options.category.stop_condition_unique_value_ratio"
RATIOS = [RATIO, "structured_options.float.precision.sample_ratio",
          "structured_options.category.cms_confidence",
          "structured_options.category.cms_relative_error"]
SAMPLING = "structured_options.sampling_ratio"
CMS = "structured_options.category.cms_max_num_heavy_hitters"
NONE_OK = [p for p in POSITIVE if "register_count" not in p] + [STOP] + RATIOS


def base(path):
    opt = ProfilerOptions()
    if path in (STOP, RATIO):
        opt.set({STOP: 10, RATIO: 0.5})
    if path == CMS:
        opt.set({"structured_options.category.cms": True})
    return opt


def integers(ctx, paths):
    path = ctx.pick("path", list(paths))
    opt = base(path)
    v = ctx.int("v", -1000, 1000)
    opt.set({path: v})
    low = 0 if path == STOP else -10 ** 9 if path == CMS or path.endswith("seed") else 1
    judge(ctx, opt, v >= low)


def ratios(ctx, paths):
    path = ctx.pick("path", list(paths))
    opt = base(path)
    v = ctx.real("v", -1000, 1000)
    opt.set({path: v})
    low = v > 0 if path == SAMPLING else v >= 0
    judge(ctx, opt, ctx.all([low, v <= 1]))


def numbers_of_the_other_kind(ctx):
    """floats for integer options, integers for ratios"""
    path = ctx.pick("path", POSITIVE + [STOP] + RATIOS + [SAMPLING])
    opt = base(path)
    if path in POSITIVE + [STOP]:
        opt.set({path: ctx.real("v", -1000, 1000)})
        judge(ctx, opt, False)
        return
    v = ctx.int("v", -5, 5)
    opt.set({path: v})
    if "sample_ratio" in path or path == SAMPLING:
        judge(ctx, opt, ctx.all([v > 0 if path == SAMPLING else v >= 0, v <= 1]))
    else:
        judge(ctx, opt, False)


def other_values(ctx):
    path = ctx.pick("path", POSITIVE + [STOP, CMS] + RATIOS + [SAMPLING])
    opt = base(path)
    v = ctx.pick("v", [None, "x", [], (1,), "auto", ["auto", "fd"], ["fd", "x"], {}])
    opt.set({path: v})
    if path == STOP or path == RATIO:
        ok = False  # the other one of the pair stays set
    else:
        ok = v is None and path in NONE_OK
        if "bin_count" in path:
            ok = v is None or v == "auto" or v == ["auto", "fd"]
    judge(ctx, opt, ok)


def stop_condition(ctx):
    opt = ProfilerOptions()
    a, b = ctx.choose("a", 2), ctx.choose("b", 2)
    n, r = ctx.int("n", -10, 10), ctx.real("r", -2, 2)
    opt.set({STOP: n if a else None, RATIO: r if b else None})
    judge(ctx, opt, ctx.all([bool(a) == bool(b), ctx.implies(bool(a), n >= 0),
                             ctx.implies(bool(b), ctx.all([r >= 0, r <= 1]))]))


def switches(ctx, kind):
    """statistics need the ones they are computed from"""
    opt = ProfilerOptions()
    o = getattr(opt.structured_options, kind)
    names = ["sum", "variance", "skewness", "kurtosis", "histogram_and_quantiles",
             "median_abs_deviation", "mode", "median"]
    on = {n: bool(ctx.choose(n, 2)) for n in names}
    opt.set({"structured_options.%s.%s.is_enabled" % (kind, n): v for n, v in on.items()})
    needs = [("variance", "sum"), ("skewness", "sum"), ("skewness", "variance"),
             ("kurtosis", "sum"), ("kurtosis", "variance"), ("kurtosis", "skewness"),
             ("median_abs_deviation", "histogram_and_quantiles"),
             ("mode", "histogram_and_quantiles"), ("median", "histogram_and_quantiles")]
    judge(ctx, opt, all(on[b] for a, b in needs if on[a]))
    errors = " ".join(" ".join(valid(opt)[0] or []).split())
    for a in names:
        bad = on[a] and not all(on[d] for c, d in needs if c == a)
        text = "if %s is toggled on" % a.replace("_abs_", " absolute ")
        ctx.check("every such combination is reported", (text in errors or
                  text.replace("if ", "if the ") in errors) == bad)
    for n, v in on.items():
        ctx.check("is_prop_enabled", o.is_prop_enabled(n) == v)


def group(ctx, kind):
    """the group switch of the numeric statistics"""
    opt = ProfilerOptions()
    o = getattr(opt.structured_options, kind)
    o.is_numeric_stats_enabled = False
    ctx.check("all off", not o.is_numeric_stats_enabled)
    names = list(STATS) + ([] if kind == "text" else ["num_zeros", "num_negatives"])
    n = ctx.pick("on", names)
    getattr(o, n).is_enabled = True
    ctx.check("one on", o.is_numeric_stats_enabled)
    o.is_numeric_stats_enabled = bool(ctx.choose("v", 2))
    got = {getattr(o, k).is_enabled for k in names}
    ctx.check("all follow", got == {bool(ctx.choose("v", 2))})
    if kind == "text":
        ctx.check("not for texts", not o.num_zeros.is_enabled and not o.num_negatives.is_enabled)


BOOLEANS = ["structured_options.multiprocess", "structured_options.int",
            "structured_options.float.precision", "structured_options.text.vocab",
            "structured_options.text.min", "structured_options.int.num_zeros",
            "structured_options.float.bias_correction", "structured_options.datetime",
            "structured_options.order", "structured_options.category",
            "structured_options.data_labeler", "structured_options.correlation",
            "structured_options.chi2_homogeneity", "structured_options.row_statistics",
            "structured_options.null_replication_metrics",
            "structured_options.row_statistics.unique_count",
            "structured_options.row_statistics.null_count", "unstructured_options.text",
            "unstructured_options.text.vocab", "unstructured_options.text.words",
            "unstructured_options.data_labeler"]


def booleans(ctx):
    path = ctx.pick("path", BOOLEANS) + ".is_enabled"
    opt = ProfilerOptions()
    v = ctx.pick("v", [True, False, 0, 1, None, "True", 1.0])
    opt.set({path: v, "structured_options.chi2_homogeneity.is_enabled": False})
    if "chi2" in path:
        opt.set({path: v})
    judge(ctx, opt, isinstance(v, bool))
    if isinstance(v, bool):
        comps = path.split(".")
        owner = getattr(opt, comps[0])
        if len(comps) == 3:
            ctx.check("listed among the enabled profiles",
                      (comps[1] in owner.enabled_profiles) == v)


def needs_categories(ctx):
    opt = ProfilerOptions()
    a, b = bool(ctx.choose("category", 2)), bool(ctx.choose("chi2", 2))
    opt.set({"structured_options.category.is_enabled": a,
             "structured_options.chi2_homogeneity.is_enabled": b})
    judge(ctx, opt, a or not b)
    ctx.check("enabled", ("category" in opt.structured_options.enabled_profiles) == a)


def lists(ctx):
    opt = ProfilerOptions()
    what = ctx.pick("what", ["correlation", "stop_words", "hashing", "case", "dirpath", "seed",
                             "null_values", "column_null_values"])
    v = ctx.pick("v", [None, "full", "hll", "x", ["a"], ["a", "b"], ["a", 1], [], {}, {"a": 0},
                       {"a": 1}, {1: {"a": 0}}, {1: {"a": "x"}}, {1: "a"}, True, 7])
    path, ok = {
        "correlation": ("structured_options.correlation.columns",
                        v is None or v == ["a", "b"]),
        "stop_words": ("unstructured_options.text.stop_words",
                       v is None or isinstance(v, list) and v != ["a", 1]),
        "hashing": ("structured_options.row_statistics.unique_count.hashing_method",
                    v in ("full", "hll")),
        "case": ("unstructured_options.text.is_case_sensitive", v is True),
        "dirpath": ("structured_options.data_labeler.data_labeler_dirpath",
                    v is None or isinstance(v, str)),
        "seed": ("structured_options.row_statistics.unique_count.hll.seed", v == 7),
        "null_values": ("structured_options.null_values", v is None or v in ({}, {"a": 0})),
        "column_null_values": ("structured_options.column_null_values",
                               v is None or v in ({}, {1: {"a": 0}})),
    }[what]
    if what == "seed" and v is True:
        return
    opt.set({path: v})
    judge(ctx, opt, bool(ok))


def null_values(ctx, columns):
    """every entry of the null values counts"""
    def entries(tag, n):
        ks = [ctx.pick("%sk%d" % (tag, i), ["a", "b", 1, None]) for i in range(n)]
        vs = [ctx.pick("%sv%d" % (tag, i), [0, 1, re.IGNORECASE, "a", None, 2.5])
              for i in range(n)]
        d = dict(zip(ks, vs))
        return d, all(isinstance(k, str) and (v == 0 and v is not None or isinstance(v, re.RegexFlag))
                      for k, v in d.items())

    opt = ProfilerOptions()
    if not columns:
        v, ok = entries("n", 2)
        opt.set({"structured_options.null_values": v})
    else:
        outer = ctx.pick("column", [0, 3, "0", None, 1.5])
        v, ok = entries("c", columns)
        opt.set({"structured_options.column_null_values": {7: {"a": 0}, outer: v}})
        ok = ok and isinstance(outer, int)
    judge(ctx, opt, ok)


def presets(ctx):
    name = ctx.pick("preset", ["complete", "data_types", "numeric_stats_disabled",
                               "lower_memory_sketching", "nonsense"])
    try:
        opt = ProfilerOptions(presets=name)
    except ValueError:
        ctx.check("unknown presets are rejected", name == "nonsense")
        return
    ctx.check("unknown presets are rejected", name != "nonsense")
    judge(ctx, opt, True)
    so, uo = opt.structured_options, opt.unstructured_options
    every = {"multiprocess", "int", "float", "datetime", "text", "order", "category",
             "data_labeler", "correlation", "chi2_homogeneity", "null_replication_metrics",
             "row_statistics"}
    on = set(so.enabled_profiles)
    if name == "complete":
        ctx.check("everything on", on == every and set(uo.enabled_profiles) == {
            "text", "data_labeler"})
    elif name == "data_types":
        ctx.check("only the labeler on", on == {"data_labeler"} and uo.enabled_profiles == [
            "data_labeler"])
    else:
        usual = ProfilerOptions()
        ctx.check("profiles as usual", on == set(usual.structured_options.enabled_profiles))
        want = leaves(usual)
        if name == "numeric_stats_disabled":
            for k in ("int", "float", "text"):
                ctx.check("no numeric statistics",
                          not getattr(so, k).is_numeric_stats_enabled)
            for k in STATS + ("num_zeros", "num_negatives"):
                for t in ("int", "float", "text"):
                    want[("structured_options", t, k, "is_enabled")] = False
        else:
            want[("structured_options", "row_statistics", "unique_count",
                  "hashing_method")] = "hll"
            c = ("structured_options", "category")
            want[c + ("max_sample_size_to_check_stop_condition",)] = 5000
            want[c + ("stop_condition_unique_value_ratio",)] = 0.5
        want[("presets",)] = name
        ctx.check("nothing else changes", leaves(opt) == want)


NAMES1 = ["is_enabled", "presets", "null_values", "is_numeric_stats_enabled", "cms", "foo",
          "structured_options", "text", "hll"]
NAMES2 = ["structured_options", "unstructured_options", "text", "int", "row_statistics", "min",
          "vocab", "is_enabled", "data_labeler", "is_numeric_stats_enabled", "unique_count",
          "foo", "null_values", "data_labeler_dirpath", "top_k_words"]
NAMES3 = ["structured_options", "unstructured_options", "text", "float", "mode", "vocab",
          "is_enabled", "top_k_modes", "row_statistics"]
NAMES4 = ["structured_options", "row_statistics", "unique_count", "hll", "seed", "is_enabled"]
PATHS = ["*.is_enabled", "structured_options.int.is_enabled", "*.min.is_enabled",
         "structured_options.text.min.is_enabled", "*.text.vocab.is_enabled",
         "*.is_numeric_stats_enabled", "data_labeler.is_enabled",
         "row_statistics.unique_count.hashing_method", "presets"]

HARNESSES = [
    Harness(setting, quick=[dict(names=NAMES1, length=1), dict(names=NAMES2, length=2),
                            dict(names=NAMES3, length=3),
                            dict(names=["is_enabled", "min", "columns", "foo", "seed", "hll"],
                                 length=2, cls="StructuredOptions"),
                            dict(names=["is_enabled", "min", "foo", "precision", "sample_ratio"],
                                 length=2, cls="FloatOptions")],
            thorough=[dict(names=NAMES4, length=4)],
            bounds="dotted paths of up to 3 names (thorough 4), with and without wildcard"),
    Harness(several, quick=[dict(first=PATHS, second=PATHS)],
            bounds="pairs of paths set together or one after the other"),
    Harness(integers, quick=[dict(paths=POSITIVE + [STOP, CMS, "structured_options."
                                                    "row_statistics.unique_count.hll.seed"])],
            bounds="every integer in [-1000,1000]"),
    Harness(ratios, quick=[dict(paths=RATIOS + [SAMPLING])], bounds="every real in [-1000,1000]"),
    Harness(numbers_of_the_other_kind, quick=[dict()],
            bounds="every real or integer in the ranges above"),
    Harness(stop_condition, quick=[dict()], bounds="every pair"),
    Harness(other_values, quick=[dict()], bounds="8 other values"),
    Harness(switches, quick=[dict(kind=k) for k in ("int", "float", "text")],
            bounds="all 256 combinations"),
    Harness(group, quick=[dict(kind=k) for k in ("int", "float", "text")], bounds="all"),
    Harness(booleans, quick=[dict()], bounds="21 switches, 7 values"),
    Harness(needs_categories, quick=[dict()], bounds="all"),
    Harness(presets, quick=[dict()], bounds="every preset"),
    Harness(null_values, quick=[dict(columns=0), dict(columns=1)], thorough=[dict(columns=2)],
            bounds="up to two entries, 4 kinds of keys and 6 of values"),
    Harness(lists, quick=[dict()], bounds="8 options, 16 values"),
]
