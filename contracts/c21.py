"""C21: UVmat instructions are translated into the same series of couples."""
import z3
from pyvc.spec import *
from pyvc.models import str_concat

UV = "uvmat:ActionPIVFromUvmatXML"


def instructions(S, mode, ir, pair_civ1=None, **more):
    pairs = dict(list_pair_mode=mode)
    if pair_civ1 is not None:
        pairs["list_pair_civ1"] = pair_civ1
    return S.ns("instructions", index_range=S.ns("index_range", **ir), path_file_input=S.str("path_file_input"),
                path_dir_output=S.str("path_dir_output"), _make_xml_text=lambda I: "",
                action_input=S.ns("action_input", pair_indices=S.ns("pair_indices", **pairs), **more))


def index_range(S, c):
    """first index, and optional increment and last index; the expected range"""
    d = {f"first_{c}": S.int(f"first_{c}")}
    if S.choose(2):
        d[f"incr_{c}"] = S.int(f"incr_{c}", 1)
    if S.choose(2):
        d[f"last_{c}"] = S.int(f"last_{c}")
    last = d.get(f"last_{c}")
    return d, (d[f"first_{c}"], d.get(f"incr_{c}", 1), None if last is None else Sv(ze(last) + 1, "int"))


def new_params(S):
    return S.ns("params", series=S.ns("series", path="?", str_subset="?", ind_start="?", ind_step="?", ind_stop="?"),
                saving=S.ns("saving", path="?", how="ask"), piv0=S.ns("piv0", shape_crop_im0=48),
                multipass=S.ns("multipass", number=1, use_tps=True, subdom_size=S.int("default_size"), smoothing_coef=S.real("default_smooth"),
                               threshold_tps=S.real("default_tps")),
                fix=S.ns("fix", correl_min=S.real("default_correl"), displacement_max=None))


def same(S, what, got, exp):
    if exp is None or got is None:
        S.ens(what, z3.BoolVal(got is None and exp is None))
    elif isinstance(got, str) and got == "?":
        S.ens(what, z3.BoolVal(False))
    else:
        S.ens(what, S.eq(got, exp))


def check_series(S, p, ins, rng, subset):
    s = p.attrs["series"].attrs
    same(S, "path of the images", s["path"], ins.attrs["path_file_input"])
    same(S, "subset string of the mode", s["str_subset"], subset)
    for n, e in zip(("ind_start", "ind_step", "ind_stop"), rng):
        same(S, n, s[n], e)


def mode_of(S):
    """(instructions, expected range, expected subset, supported)"""
    m = S.choose(4)
    if m == 0:
        d, rng = index_range(S, "i")
        if S.choose(2):     # the other index is not used
            d.update(first_j=S.int("first_j"), last_j=S.int("last_j"), incr_j=S.int("incr_j"))
        return "series(Di)", d, None, rng, "i:i+2:1", True
    if m == 1:
        d, rng = index_range(S, "i")
        civ1 = ["j= a-b", "j= a-b ...", "j= a-c", "i= 1-2", "j= 1-2"][S.choose(5)]
        return "pair j1-j2", d, civ1, rng, "i,0:2", civ1.startswith("j= a-b")
    if m == 2:
        d, rng = index_range(S, "j")
        i = S.int("first_i")
        d["first_i"] = i
        d["last_i"] = S.int("last_i")
        if S.choose(2):
            d["incr_i"] = S.int("incr_i", 1)
        one = S.when(ze(d["last_i"]) == ze(i))
        return "series(Dj)", d, None, rng, str_concat([S.fmt(i), ",i:i+2:1"]), one
    mode = S.str("mode")
    for x in ("series(Di)", "series(Dj)", "pair j1-j2"):
        S.req(ze(mode) != z3.StringVal(x))
    d, rng = index_range(S, "i")
    d.update(index_range(S, "j")[0])
    return mode, d, "j= a-b", rng, "", False


@contract("C21")
def series(S):
    """set_params_series: the range and the subset of the instructions, or refused"""
    mode, d, civ1, rng, subset, supported = mode_of(S)
    ins = instructions(S, mode, d, civ1)
    p = new_params(S)
    _, exc = S.attempt(lambda: S.call(S.attr(S.ref(UV), "set_params_series"), p, ins))
    if exc is not None:
        S.ens("a supported mode is accepted", z3.BoolVal(not supported))
        S.ens("refused with a NotImplementedError", z3.BoolVal(S.exc_is(exc, NotImplementedError)))
        S.cover("refused")
        return
    S.ens("an unsupported mode is refused", z3.BoolVal(supported))
    check_series(S, p, ins, rng, subset)
    S.cover("end")


@contract("C21")
def piv(S):
    """params_from_uvmat_xml: windows, thresholds, number of passes and series of the instructions"""
    n, m = S.int("box", 1), S.int("box2", 1)

    def split(I, sep=None):
        S.ens("the two sizes are separated by a tabulation", z3.BoolVal(sep == "\t"))
        return VList([S.fmt(n), S.fmt(m)])
    tps, second, vmax = S.choose(2), S.choose(2), S.choose(2)
    fix1 = dict(min_corr=S.real("min_corr"))
    if vmax:
        fix1["max_vel"] = S.real("max_vel")
    more = dict(civ1=S.ns("civ1", search_box_size=S.ns("text", split=split)), fix1=S.ns("fix1", **fix1))
    if tps:
        more["patch2"] = S.ns("patch2", sub_domain_size=S.int("sub_domain_size"), field_smooth=S.real("field_smooth"), max_diff=S.real("max_diff"))
    if second:
        more["civ2"] = S.ns("civ2")
    d, rng = index_range(S, "i")
    ins = instructions(S, "series(Di)", d, None, **more)
    p = new_params(S)
    default = dict(p.attrs["multipass"].attrs)
    S.stub("topologies.piv:TopologyPIV.create_default_params", lambda I, *a: p)
    r = S.call(S.attr(S.ref(UV), "params_from_uvmat_xml"), ins)
    S.ens("the parameters of the computation", z3.BoolVal(r is p))
    check_series(S, p, ins, rng, "i:i+2:1")
    same(S, "directory of the results", p.attrs["saving"].attrs["path"], ins.attrs["path_dir_output"])
    S.ens("the results are computed again", z3.BoolVal(p.attrs["saving"].attrs["how"] == "recompute"))
    w = p.attrs["piv0"].attrs["shape_crop_im0"]
    S.ens("the window is the largest even number not above the size of the instructions", And(ze(w) % 2 == 0, ze(w) <= ze(n), ze(w) >= ze(n) - 1))
    mp = p.attrs["multipass"].attrs
    S.ens("spline only if there is a patch2", z3.BoolVal(mp["use_tps"] is bool(tps)))
    for a, b in (("subdom_size", "sub_domain_size"), ("smoothing_coef", "field_smooth"), ("threshold_tps", "max_diff")):
        same(S, a, mp[a], more["patch2"].attrs[b] if tps else default[a])
    same(S, "number of passes", mp["number"], 2 if second else 1)
    fix = p.attrs["fix"].attrs
    same(S, "smallest correlation", fix["correl_min"], fix1["min_corr"])
    same(S, "largest displacement", fix["displacement_max"], fix1.get("max_vel"))
    S.cover("end")
