"""Model zoo: JSON specs <-> models of the library, inputs, calls.

A spec fully describes a configuration; everything here is a pure function of
(spec, seeds), so a spec inside a replay file rebuilds the same model."""
import torch
from torch import nn

from . import env
from .rng import Rng, derive

PIECEWISE = ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod")
SWITCH = ("switch_continuous", "switch_discontinuous")
FLAT = ("polynomial", "product", "fourier", "baseline", "baseline_relu")
ND = {"polynomial_2d": 2, "polynomial_3d": 3, "polynomial_4d": 4, "polynomial_5d": 5, "continuous_nd": None}
NORMS = ("max_abs", "max_center", "l2", "max_abs_last", "max_center_last", "max_abs_nd", "max_center_nd",
         "layer_norm", "bn")
FREE_NORMS = ("max_abs", "max_center", "l2", "max_abs_last", "max_center_last", "max_abs_nd", "max_center_nd")


# --------------------------------------------------------------------------
# factories


def norm_factory(name):
    L = env.mod("layers")
    return {
        None: None,
        "max_abs": L.MaxAbsNormalization,
        "max_center": L.MaxCenterNormalization,
        "l2": L.L2Normalization,
        "max_abs_last": L.MaxAbsNormalizationLast,
        "max_center_last": L.MaxCenterNormalizationLast,
        "max_abs_nd": L.MaxAbsNormalizationND,
        "max_center_nd": L.MaxCenterNormalizationND,
        "layer_norm": L.LazyLayerNormLastDim,
        "layer_norm_nobias": lambda: L.LazyLayerNormLastDim(bias=False),
        "bn": nn.LazyBatchNorm1d,
    }[name]


def conv_norm_factory(name, dim):
    L = env.mod("layers")
    return {
        None: None,
        "bn": nn.BatchNorm1d if dim == 1 else nn.BatchNorm2d,
        "max_abs_nd": lambda ch: L.MaxAbsNormalizationND(),
        "max_center_nd": lambda ch: L.MaxCenterNormalizationND(),
        "max_abs": lambda ch: L.MaxAbsNormalization(),
        "max_abs_last": lambda ch: L.MaxAbsNormalizationLast(),
    }[name]


def nonlin(name):
    return {None: None, "relu": nn.ReLU(), "tanh": nn.Tanh(), "sigmoid": nn.Sigmoid()}[name]


def f64_ok(spec):
    """The piecewise convolution expansions are float32 only."""
    f = spec["fam"]
    if f in ("vae", "emb"):
        return False
    if f in ("conv", "convt", "fcn", "fdn", "tail"):
        return "continuous" not in spec["lt"]
    return not (f in ("reg", "cls") and spec["mt"] not in ("high_order", "high_order_input"))


def build(spec):
    """Construct the model (unseeded: the caller decides the RNG state)."""
    with env.quiet():
        return _build(spec)


def _build(s):
    L, N, A, E = (env.mod(k) for k in ("layers", "networks", "attentions", "emb"))
    f = s["fam"]
    if f == "fc":
        kw = dict(layer_type=s["lt"], n=s["n"], in_features=s["in"], out_features=s["out"],
                  segments=s["seg"], periodicity=s.get("per"))
        if s.get("wm"):
            kw["weight_magnitude"] = s["wm"]
        if s["lt"] == "continuous_nd":
            kw["dimensions"] = s["dims"]
        if s["lt"] in SWITCH:
            kw.pop("periodicity")
            kw["num_input_layers"] = s.get("nil", 2)
            if s.get("norm"):
                kw["normalization"] = norm_factory(s["norm"])()
        if s["lt"] == "product" and s.get("alpha") is not None:
            kw["alpha"] = s["alpha"]
        if s.get("len"):
            kw["length"] = s["len"]
        if s.get("init"):
            kw["initialize"] = s["init"]
        return L.high_order_fc_layers(**kw)
    if f == "mlp":
        kw = dict(layer_type=s["lt"], n=s["n"], in_width=s["in"], out_width=s["out"],
                  hidden_layers=s["hl"], hidden_width=s["hw"], n_in=s.get("n_in"), n_out=s.get("n_out"),
                  n_hidden=s.get("n_hidden"), in_segments=s["iseg"], out_segments=s["oseg"],
                  hidden_segments=s["hseg"], periodicity=s.get("per"),
                  normalization=norm_factory(s.get("norm")), non_linearity=nonlin(s.get("nl")),
                  resnet=s.get("resnet", False), dropout=s.get("dropout", 0.0))
        if s.get("lti"):
            kw["layer_type_in"] = s["lti"]
        return N.HighOrderMLP(**kw)
    if f == "low":
        return N.LowOrderMLP(in_width=s["in"], out_width=s["out"], hidden_layers=s["hl"], hidden_width=s["hw"],
                             non_linearity=nonlin(s.get("nl")), normalization=norm_factory(s.get("norm")))
    if f == "mlplist":
        return N.HighOrderMLPList(layer_type=[s["lt"]] * s["layers"], n=[s["n"]] * s["layers"],
                                  width=s["width"], segments=[s["seg"]] * s["layers"], periodicity=s.get("per"))
    if f == "conv":
        kw = dict(layer_type=s["lt"], n=s["n"], in_channels=s["in"], out_channels=s["out"],
                  kernel_size=s["k"], segments=s["seg"], rescale_output=s.get("rescale", False),
                  stride=s.get("stride", 1), padding=s.get("pad", 0))
        if "fourier" not in s["lt"]:
            kw["periodicity"] = s.get("per")
        for k, a in (("len", "length"), ("dil", "dilation"), ("pm", "padding_mode")):
            if s.get(k):
                kw[a] = s[k]
        return L.high_order_convolution_layers(**kw)
    if f == "convt":
        return L.high_order_convolution_transpose_layers(
            layer_type=s["lt"], n=s["n"], in_channels=s["in"], out_channels=s["out"], kernel_size=s["k"],
            segments=s["seg"], rescale_output=s.get("rescale", False), stride=s.get("stride", 1),
            padding=s.get("pad", 0), periodicity=s.get("per"))
    if f == "fcn":
        return N.HighOrderFullyConvolutionalNetwork(
            layer_type=s["lt"], n=s["n"], channels=s["ch"], segments=s["seg"], kernel_size=s["ks"],
            rescale_output=s.get("rescale", False), periodicity=s.get("per"),
            normalization=conv_norm_factory(s.get("norm"), s["dim"]), pooling=s.get("pool", "%dd" % s["dim"]),
            stride=s.get("stride"), padding=s.get("pad", 0))
    if f == "fdn":
        return N.HighOrderFullyDeconvolutionalNetwork(
            layer_type=s["lt"], n=s["n"], channels=s["ch"], segments=s["seg"], kernel_size=s["ks"],
            rescale_output=s.get("rescale", False), periodicity=s.get("per"),
            normalization=conv_norm_factory(s.get("norm"), 2), stride=s.get("stride"), padding=s.get("pad", 0))
    if f == "tail":
        return N.HighOrderTailFocusNetwork(
            layer_type=s["lt"], n=s["n"], channels=s["ch"], segments=s["seg"], kernel_size=s["ks"],
            rescale_output=s.get("rescale", False), periodicity=s.get("per"),
            normalization=conv_norm_factory(s.get("norm"), 1), stride=s.get("stride", 1),
            padding=s.get("pad", 0), focus=s["focus"])
    if f == "vae":
        return N.VanillaVAE(latent_dim=s["latent"], encoder=_build(s["enc"]), decoder=_build(s["dec"]))
    if f == "tmlp":
        return N.transform_mlp(layer_type=s["lt"], in_width=s["in"], hidden_width=s["hw"], out_width=s["out"],
                               n=s["n"], n_in=s.get("n_in"), n_hidden=s.get("n_hidden"), n_out=s.get("n_out"),
                               in_segments=s["iseg"], hidden_segments=s["hseg"], out_segments=s["oseg"],
                               hidden_layers=s["hl"], rotations=s["rot"], periodicity=s.get("per"),
                               normalization=norm_factory(s.get("norm")), resnet=s.get("resnet", False))
    if f == "tlow":
        return N.transform_low_mlp(in_width=s["in"], hidden_width=s["hw"], out_width=s["out"], hidden_layers=s["hl"],
                                   non_linearity=nonlin(s.get("nl")), normalization=norm_factory(s.get("norm")),
                                   rotations=s["rot"])
    if f == "att":
        k = s["kind"]
        if k == "scaled":
            return A.ScaledDotProductAttention(s["d"])
        if k == "dot":
            return A.DotProductAttention(s["d"])
        if k == "additive":
            return A.AdditiveAttention(s["d"])
        if k == "loc":
            return A.LocationAwareAttention(s["d"], smoothing=s.get("smooth", True))
        if k == "mhloc":
            return A.MultiHeadLocationAwareAttention(s["d"], s["h"], s.get("coc", 3))
        if k == "mha":
            return A.MultiHeadAttention(s["d"], s["h"])
        if k == "rel":
            return A.RelativeMultiHeadAttention(s["d"], s["h"], dropout_p=s.get("dropout", 0.0))
    if f == "norm":
        k = s["kind"]
        return norm_factory(k)()
    if f == "emb":
        k = s["kind"]
        if k == "classic":
            return E.ClassicSinusoidalEmbedding(s["d"])
        fn = E.PiecewisePolynomialEmbedding if k == "pp" else E.PiecewiseDiscontinuousPolynomialEmbedding
        return fn(n=s["n"], in_features=s["in"], out_features=s["out"], segments=s["seg"], periodicity=s.get("per"))
    if f in ("reg", "cls"):
        M = env.mod("modules")
        from omegaconf import OmegaConf

        cfg = s["cfg"] if "cfg" in s else OmegaConf.create(lightning_cfg(s))
        return (M.RegressionNet if f == "reg" else M.ClassificationNet)(cfg)
    if f == "rot":
        return env.mod("layers").fixed_rotation_layer(n=s["in"], rotations=s["rot"], normalize=s.get("nz", True))[0]
    raise ValueError(f)


def lightning_cfg(s):
    net = dict(model_type=s["mt"], normalize=s.get("bn", False), layer_type=s["lt"], n=s["n"])
    if s["mt"] in ("high_order", "high_order_input"):
        net.update(n_in=s.get("n_in", s["n"]), n_out=s.get("n_out", s["n"]),
                   input=dict(width=s["in"], segments=s["iseg"]),
                   hidden=dict(width=s["hw"], layers=s["hl"], segments=s["hseg"]),
                   output=dict(width=s["out"], segments=s["oseg"]))
    else:
        net.update(channels=s["ch"], segments=s["seg"], kernel_size=s["ks"], periodicity=s.get("per"),
                   stride=s.get("stride", 1), out_features=s["out"], features=s["size"], focus=s.get("focus"))
    o = s.get("opt", {})
    return dict(net=net, output=dict(width=s["out"]), data=dict(classes=max(2, s["out"])),
                optimizer=dict(name=o.get("name", "adam"), lr=o.get("lr", 1e-3),
                               scheduler=o.get("sched", "none"), patience=o.get("patience", 1),
                               factor=o.get("factor", 0.5), gamma=o.get("gamma", 0.9)))


# --------------------------------------------------------------------------
# sampling of specs


def _n(rng, big=False):
    return rng.wchoice([(4, 2), (5, 3), (4, 4), (2, 5), (1, 6), (1, 7)] + ([(1, 9)] if big else []))


def _seg(rng):
    return rng.wchoice([(2, 1), (4, 2), (3, 3), (3, 4), (2, 5), (1, 7), (1, 8), (1, 13)])


def _per(rng):
    return rng.wchoice([(6, None), (3, 2.0), (0.7, 1.5), (0.7, 1.0), (0.5, 3.0)])


def sample_fc(rng, lts=None):
    lt = rng.choice(lts) if lts else rng.wchoice(
        [(5, "continuous"), (5, "discontinuous"), (2, "continuous_prod"), (2, "discontinuous_prod"),
         (2, "polynomial"), (1.5, "product"), (1.5, "fourier"), (0.5, "baseline"), (0.5, "baseline_relu"),
         (2, "switch_continuous"), (2, "switch_discontinuous"), (1, "polynomial_2d"), (1, "polynomial_3d"),
         (0.5, "polynomial_4d"), (0.5, "polynomial_5d"), (1.5, "continuous_nd")])
    s = dict(fam="fc", lt=lt, n=_n(rng), seg=_seg(rng), per=_per(rng))
    s["in"] = rng.wchoice([(2, 1), (4, 2), (3, 3), (1, 5), (0.5, 9)])
    s["out"] = rng.wchoice([(2, 1), (4, 2), (3, 3), (1, 5), (0.5, 8)])
    if lt in ND:
        if lt == "continuous_nd":
            d = rng.choice([2, 2, 3])
            s["dims"] = d
            s["n"] = [rng.choice([2, 3, 4]) for _ in range(d)]
            s["seg"] = [rng.choice([1, 2, 3, 4]) for _ in range(d)]
            s.pop("per")
        else:
            d = ND[lt]
            s["dims"] = d
            s["n"] = [rng.choice([2, 3, 4] if d < 4 else [2, 3]) for _ in range(d)]
            s["per"] = rng.choice([None, None, 2.0])
        s["in"] = min(s["in"], 3)
    if lt == "fourier":
        s["n"] = rng.choice([1, 2, 3, 4, 5, 7])
        s["per"] = None
    if lt == "polynomial":
        s["n"] = rng.choice([1, 2, 3, 4, 5, 7])
    if lt in SWITCH:
        s["per"] = None
        s["nil"] = rng.wchoice([(4, 2), (1, 3), (0.5, 1)])
        s["norm"] = rng.wchoice([(4, None), (1, "max_abs"), (1, "max_center")])
    if lt in ("baseline", "baseline_relu"):
        s["per"] = None
    return s


MLP_LTS = [(6, "continuous"), (6, "discontinuous"), (2, "continuous_prod"), (2, "discontinuous_prod"),
           (2, "polynomial"), (1, "product"), (1, "fourier"), (2, "switch_continuous"),
           (2, "switch_discontinuous"), (0.5, "baseline_relu")]


def sample_mlp(rng, lts=None, norms=None, dropout=False, small=False):
    lt = rng.wchoice(lts or MLP_LTS)
    s = dict(fam="mlp", lt=lt, n=_n(rng), hl=rng.wchoice([(2, 0), (4, 1), (4, 2), (2, 3)]),
             iseg=_seg(rng), oseg=_seg(rng), hseg=_seg(rng), per=_per(rng))
    s["in"] = rng.choice([1, 2, 2, 3, 4])
    s["out"] = rng.choice([1, 1, 2, 3])
    s["hw"] = rng.choice([1, 2, 3, 3, 4] if small else [1, 2, 3, 4, 6])
    if rng.chance(0.3):
        for k in ("n_in", "n_out", "n_hidden"):
            if rng.chance(0.6):
                s[k] = _n(rng)
    s["norm"] = rng.choice(norms) if norms else rng.wchoice(
        [(4, None), (3, "max_abs"), (1, "max_center"), (1, "l2"), (1, "layer_norm"), (1, "bn"),
         (0.5, "max_abs_last"), (0.5, "max_abs_nd"), (0.3, "layer_norm_nobias"), (0.4, "max_center_nd")])
    s["nl"] = rng.wchoice([(6, None), (1, "relu"), (1, "tanh")])
    s["resnet"] = s["hl"] >= 2 and rng.chance(0.4)
    if dropout:
        s["dropout"] = rng.choice([0.0, 0.2, 0.5])
    if rng.chance(0.15) and lt in PIECEWISE + SWITCH:
        s["lti"] = rng.choice(["continuous", "discontinuous", "polynomial", "switch_continuous", "baseline"])
    if lt == "fourier":
        s["per"] = None
    return s


def sample_conv(rng, lts=None):
    lt = rng.choice(lts) if lts else rng.wchoice(
        [(4, "continuous2d"), (4, "continuous1d"), (4, "discontinuous2d"), (4, "discontinuous1d"),
         (1.5, "polynomial2d"), (1.5, "polynomial1d"), (1.5, "fourier2d")])
    s = dict(fam="conv", lt=lt, n=_n(rng), seg=_seg(rng), per=_per(rng), k=rng.choice([1, 2, 2, 3]),
             stride=rng.choice([1, 1, 2]), pad=rng.choice([0, 0, 1]), rescale=rng.chance(0.2))
    s["in"] = rng.choice([1, 2, 3])
    s["out"] = rng.choice([1, 2, 3])
    s["dim"] = 1 if lt.endswith("1d") else 2
    s["size"] = rng.choice([4, 5, 6]) if s["dim"] == 2 else rng.choice([4, 6, 9])
    if lt == "fourier2d":
        s["per"] = None
        s["n"] = rng.choice([1, 3, 4, 5])
    return s


def sample_convt(rng):
    s = dict(fam="convt", lt="continuous2d", n=_n(rng), seg=_seg(rng), per=_per(rng), k=rng.choice([2, 3]),
             stride=rng.choice([1, 2]), pad=rng.choice([0, 1]), rescale=rng.chance(0.2), dim=2)
    s["in"] = rng.choice([1, 2, 3])
    s["out"] = rng.choice([1, 2])
    s["size"] = rng.choice([2, 3, 4])
    return s


def sample_fcn(rng, dim=None, pool=True):
    dim = dim or rng.choice([1, 2])
    lt = rng.choice(["continuous", "discontinuous", "polynomial"]) + "%dd" % dim
    nl = rng.choice([1, 2, 2, 3])
    s = dict(fam="fcn", dim=dim, lt=lt, n=rng.choice([2, 3, 4]), seg=_seg(rng), per=_per(rng),
             ch=[rng.choice([1, 2])] + [rng.choice([1, 2, 3]) for _ in range(nl)],
             ks=[rng.choice([1, 2, 3]) for _ in range(nl)], pad=rng.choice([0, 1]),
             stride=rng.choice([None, 1]), size=rng.choice([8, 9]),
             norm=rng.wchoice([(3, None), (2, "bn"), (2, "max_abs_nd"), (1, "max_center_nd"), (1, "max_abs")]),
             rescale=rng.chance(0.2))
    if pool:
        s["pool"] = rng.choice(["%dd" % dim, "%dd" % dim, None])
    return s


def sample_fdn(rng):
    nl = rng.choice([1, 2, 2])
    return dict(fam="fdn", dim=2, lt="continuous2d", n=rng.choice([2, 3, 4]), seg=_seg(rng), per=_per(rng),
                ch=[rng.choice([1, 2, 3]) for _ in range(nl + 1)], ks=[rng.choice([2, 3]) for _ in range(nl)],
                stride=rng.choice([None, 1, 2]), size=rng.choice([1, 2]),
                norm=rng.wchoice([(3, None), (2, "bn"), (1, "max_abs_nd")]))


def sample_tail(rng):
    nl = rng.choice([1, 2, 3])
    lt = rng.choice(["continuous1d", "discontinuous1d", "polynomial1d"])
    return dict(fam="tail", dim=1, lt=lt, n=rng.choice([2, 3, 4]), seg=_seg(rng), per=_per(rng),
                ch=[rng.choice([1, 2])] + [rng.choice([1, 2, 3]) for _ in range(nl)],
                ks=[rng.choice([1, 2, 3]) for _ in range(nl)], stride=rng.choice([1, 1, 2]), size=16,
                focus=[rng.choice([1, 2, 3]) for _ in range(nl)],
                norm=rng.wchoice([(2, "max_abs_nd"), (2, "bn"), (1, "max_center_nd"), (1, None)]))


def sample_vae(rng):
    enc = dict(fam="fcn", dim=2, lt=rng.choice(["continuous2d", "discontinuous2d"]), n=rng.choice([2, 3]),
               seg=rng.choice([1, 2, 3]), ch=[1, rng.choice([2, 3])], ks=[2], norm=rng.choice([None, "max_abs_nd", "bn"]),
               size=4)
    dec = dict(fam="fdn", dim=2, lt="continuous2d", n=rng.choice([2, 3]), seg=rng.choice([1, 2, 3]),
               ch=[rng.choice([2, 3]), 1], ks=[4], norm=None, size=1)
    return dict(fam="vae", latent=rng.choice([1, 2, 3]), enc=enc, dec=dec, size=4)


def sample_tmlp(rng):
    s = sample_mlp(rng, small=True)
    s["fam"] = "tmlp"
    s.pop("lti", None)
    s.pop("nl", None)
    s.pop("dropout", None)
    s["rot"] = rng.choice([1, 2, 3])
    s["in"] = rng.choice([1, 2, 3])
    return s


def sample_low(rng):
    s = dict(fam=rng.choice(["low", "tlow"]), hl=rng.choice([0, 1, 2]), hw=rng.choice([2, 3, 4]),
             nl=rng.choice([None, "relu", "tanh"]), norm=rng.choice([None, "max_abs", "layer_norm", "bn"]),
             rot=rng.choice([1, 2, 3]))
    s["in"] = rng.choice([1, 2, 3])
    s["out"] = rng.choice([1, 2, 3])
    return s


def sample_mlplist(rng):
    s = dict(fam="mlplist", lt=rng.choice(["continuous", "discontinuous", "polynomial"]), n=_n(rng), seg=_seg(rng),
             layers=rng.choice([1, 2]), per=_per(rng))
    s["width"] = [rng.choice([1, 2, 3]) for _ in range(s["layers"] + 1)]
    s["in"] = s["width"][0]
    return s


def sample_att(rng, kinds=None):
    k = rng.choice(kinds or ["scaled", "dot", "additive", "loc", "mhloc", "mha", "mha", "mha", "rel", "rel"])
    h = rng.choice([1, 2, 2, 3, 4])
    return dict(fam="att", kind=k, h=h, d=h * rng.choice([1, 2, 3]), t=rng.choice([1, 2, 3, 4, 5]),
                q=rng.choice([1, 2, 3]), mask=rng.chance(0.7), smooth=rng.chance(0.5), coc=rng.choice([1, 3]),
                dropout=rng.choice([0.0, 0.0, 0.3]), mb=rng.chance(0.25))


def sample_norm(rng):
    return dict(fam="norm", kind=rng.choice(NORMS + ("layer_norm_nobias",)), d=rng.choice([1, 2, 4, 7]),
                nd=rng.choice([2, 2, 3]))


def sample_emb(rng):
    k = rng.choice(["classic", "pp", "pdp"])
    s = dict(fam="emb", kind=k, n=_n(rng), seg=_seg(rng), per=_per(rng), d=rng.choice([4, 6, 8]))
    s["in"] = rng.choice([1, 2, 3])
    s["out"] = rng.choice([2, 3])
    return s


def sample_lightning(rng, bn_ok=True):
    fam = rng.choice(["reg", "cls"])
    mt = rng.wchoice([(5, "high_order"), (2, "high_order_input")] + ([(2, "high_order_conv"), (2, "high_order_tail_focus")] if bn_ok else []))
    s = dict(fam=fam, mt=mt, n=rng.choice([2, 3, 4]), out=rng.choice([1, 2, 3]) if fam == "reg" else rng.choice([2, 3]))
    s["in"] = rng.choice([1, 2, 3])
    if mt in ("high_order", "high_order_input"):
        s.update(lt=rng.choice(["continuous", "discontinuous", "polynomial", "switch_continuous", "fourier"]),
                 iseg=_seg(rng), hseg=_seg(rng), oseg=_seg(rng), hw=rng.choice([2, 3, 4]),
                 hl=rng.choice([1, 2]), bn=bn_ok and rng.chance(0.4))
        if rng.chance(0.3):
            s["n_in"] = rng.choice([2, 3, 5])
            s["n_out"] = rng.choice([2, 3, 5])
    else:
        nl = rng.choice([1, 2])
        s.update(lt=rng.choice(["continuous1d", "discontinuous1d"]), seg=rng.choice([1, 2, 3]),
                 ch=[1] + [rng.choice([1, 2]) for _ in range(nl)], ks=[2] * nl, stride=1, size=8,
                 focus=[rng.choice([1, 2]) for _ in range(nl)])
    s["opt"] = dict(name=rng.choice(["adam", "lion"]), lr=rng.choice([1e-3, 1e-2]),
                    sched=rng.choice(["none", "plateau", "exponential"]), patience=rng.choice([0, 1, 2]),
                    factor=rng.choice([0.5, 0.1]), gamma=rng.choice([0.9, 0.5]))
    return s


SAMPLERS = {
    "fc": sample_fc, "mlp": sample_mlp, "conv": sample_conv, "convt": sample_convt, "fcn": sample_fcn,
    "fdn": sample_fdn, "tail": sample_tail, "vae": sample_vae, "tmlp": sample_tmlp, "low": sample_low,
    "mlplist": sample_mlplist, "att": sample_att, "norm": sample_norm, "emb": sample_emb, "lit": sample_lightning,
}
DEFAULT_MIX = [(7, "fc"), (7, "mlp"), (4, "conv"), (1.5, "convt"), (2, "fcn"), (1, "fdn"), (1.5, "tail"),
               (1, "vae"), (1, "tmlp"), (0.7, "low"), (0.5, "mlplist"), (3, "att"), (1.2, "norm"), (0.8, "emb"),
               (1.5, "lit")]


def sample(rng, mix=None):
    fam = rng.wchoice(mix or DEFAULT_MIX)
    return unusual(rng, SAMPLERS[fam](rng))


def large(rng, s):
    """One dimension far beyond the usual (thresholds, chunking)."""
    f = s["fam"]
    if f == "fc" and s["lt"] not in ND:
        k = rng.choice(["seg", "n", "in", "out"])
        s[k] = rng.choice(dict(seg=[40, 100], n=[10, 12], out=[33, 65]).get(k, [20, 33, 65]))
        if s["lt"] in SWITCH + PIECEWISE and k == "n":
            s["seg"] = min(s["seg"], 4)
    elif f == "mlp":
        k = rng.choice(["hw", "iseg", "hseg", "oseg", "hl"])
        s[k] = rng.choice(dict(hw=[17, 33], hl=[5, 7]).get(k, [40, 100]))
    elif f == "conv":
        k = rng.choice(["seg", "in", "out", "size"])
        s[k] = rng.choice(dict(seg=[40], size=[17, 33] if s["dim"] == 1 else [12]).get(k, [9]))
    elif f == "att":
        k = rng.choice(["t", "q", "h"])
        if k == "h":
            s["h"], s["d"] = 8, 16
        else:
            s[k] = rng.choice([17, 33])
    elif f == "norm":
        s["d"] = rng.choice([33, 129])
    return s


def unusual(rng, s):
    """Rarely used options."""
    if rng.chance(0.05):
        s = large(rng, s)
    if s["fam"] == "fc" and s["lt"] not in SWITCH:
        flat = s["lt"] in FLAT or s["lt"].startswith("polynomial")
        if rng.chance(0.3 if flat else 0.06) and not s["lt"].startswith("baseline") and s["lt"] != "product":
            s["len"] = rng.choice([1.0, 3.0, 4.0])
        if s["lt"] in PIECEWISE and rng.chance(0.1):
            s["init"] = "uniform"
        if rng.chance(0.06):
            s["wm"] = rng.choice([0.1, 3.0])
        if s["lt"].startswith("discontinuous") and rng.chance(0.05):
            s["n"] = 1  # piecewise constant
    if s["fam"] == "conv":
        if rng.chance(0.06 if "continuous" in s["lt"] else 0.3):
            s["len"] = rng.choice([1.0, 3.0, 4.0])
        if rng.chance(0.1) and s["size"] >= 6:
            s["dil"] = 2
        if rng.chance(0.1) and s["pad"]:
            s["pm"] = rng.choice(["circular", "reflect", "replicate"])
    return s


# --------------------------------------------------------------------------
# weights


def lazy(model):
    return any(isinstance(p, nn.parameter.UninitializedTensorMixin)
               for p in list(model.parameters()) + list(model.buffers()))


def warm(model, spec):
    """Dry run that materialises lazily created parameters (torch's documented
    usage of lazy modules).  Train mode is left as found; statistics reset."""
    if lazy(model):
        mode = model.training
        model.eval()
        with torch.no_grad():
            call(model, spec, make_input(spec, dict(b=2, style="uniform", seed=1)))
        model.train(mode)
    return model


def randomize(model, seed, scale=1.0):
    """Give every trainable parameter fresh values that depend only on its name
    and shape (library initialisers make every link constant, which hides most
    of the behaviour)."""
    k = derive(seed, "style") % 100
    style = "flat" if k < 8 else "zero" if k < 12 else "outlier" if k < 16 else None
    with torch.no_grad():
        for name, p in sorted(model.named_parameters()):
            if not p.requires_grad:
                continue
            g = torch.Generator().manual_seed(derive(seed, name) % (2 ** 31))
            r = torch.rand(p.shape, generator=g, dtype=torch.float64) * 2 - 1
            if p.dim() >= 2:
                fan = p.shape[1] if p.dim() == 3 else int(p.numel() / p.shape[0])
                fan = max(1, min(fan, 12))
                a = scale * 1.3 / (fan ** 0.75)
            else:
                a = 0.4 * scale if name.endswith("bias") or name.endswith("result") else 0.8 * scale
            if style == "outlier":  # a few entries far larger than the rest
                r = torch.where(torch.rand(p.shape, generator=g) < 0.1, r * 25.0, r)
            elif style and p.dim() >= 2:
                # mostly constant links (as the initialisers leave them), a few entries trained
                keep = torch.rand(p.shape, generator=g) < 0.15
                base = r[..., :1].expand(p.shape) if style == "flat" else torch.zeros_like(r)
                r = torch.where(keep, r, base)
            p.copy_((r * a).to(p.dtype))
        for name, b in sorted(model.named_buffers()):
            g = torch.Generator().manual_seed(derive(seed, "b", name) % (2 ** 31))
            if name.endswith("running_mean"):
                b.copy_(torch.rand(b.shape, generator=g) * 0.4 - 0.2)
            elif name.endswith("running_var"):
                b.copy_(torch.rand(b.shape, generator=g) + 0.5)
    return model


def make(spec, seed, scale=1.0, train=False, dtype=None):
    """Built, warmed, randomised model in the given mode."""
    env.seed_all(seed)
    m = build(spec)
    warm(m, spec)
    if dtype == "f64":
        m = m.double()
    randomize(m, seed, scale)
    m.train(train)
    return m


# --------------------------------------------------------------------------
# inputs


def segs_of(spec):
    out = []
    for k in ("seg", "iseg", "hseg"):
        v = spec.get(k)
        if isinstance(v, int):
            out.append(v)
        elif isinstance(v, list):
            out += v
    return out or [2]


def fill(shape, style, seed, segs=(2,)):
    g = torch.Generator().manual_seed(int(seed) % (2 ** 31))

    def u(lo, hi):
        return (torch.rand(shape, generator=g, dtype=torch.float64) * (hi - lo) + lo).float()

    if style == "uniform":
        return u(-1, 1)
    if style == "wide":
        return u(-1.7, 1.7)
    if style == "far":
        return u(-4, 4)
    if style == "small":
        return u(-0.05, 0.05)
    if style == "pos":
        return u(0, 1)
    if style == "normal":
        return torch.randn(shape, generator=g)
    if style == "boundary":
        s = segs[int(torch.randint(len(segs), (1,), generator=g))]
        k = torch.randint(0, s + 1, shape, generator=g).float()
        return 2.0 * k / s - 1.0
    if style == "const":
        return torch.full(shape, float(torch.rand(1, generator=g) * 2 - 1))
    if style == "zeros":
        return torch.zeros(shape)
    if style == "repeat":  # runs of identical samples
        x = u(-1.2, 1.2)
        for i in range(1, shape[0] if shape else 0):
            if float(torch.rand(1, generator=g)) < 0.6:
                x[i] = x[i - 1]
        return x
    if style == "mixed":
        x = u(-1.3, 1.3)
        b = fill(shape, "boundary", int(seed) + 1, segs)
        m = torch.rand(shape, generator=g) < 0.25
        x = torch.where(m, b, x)
        return x
    raise ValueError(style)


STYLES = [(6, "uniform"), (3, "wide"), (2, "mixed"), (1, "boundary"), (1, "pos"), (0.7, "small"), (0.7, "normal"),
          (0.4, "const"), (0.3, "far"), (1, "repeat")]


def sample_input(rng, b=None):
    return dict(b=b or rng.wchoice([(2, 1), (3, 2), (3, 3), (2, 5), (1, 8), (0.6, 17), (0.3, 40), (0.1, 130)]),
                style=rng.wchoice(STYLES), seed=rng.seed31())


def in_shape(spec, b):
    f = spec["fam"]
    if f in ("mlp", "low", "tmlp", "tlow", "mlplist", "rot"):
        return (b, spec["in"])
    if f == "fc":
        return (b, spec["in"], spec["dims"]) if spec["lt"] in ND else (b, spec["in"])
    if f in ("conv", "convt"):
        return (b, spec["in"]) + (spec["size"],) * spec["dim"]
    if f in ("fcn", "fdn", "tail"):
        return (b, spec["ch"][0]) + (spec["size"],) * spec["dim"]
    if f == "vae":
        return (b, 1, spec["size"], spec["size"])
    if f == "norm":
        return (b, spec["d"]) if spec["nd"] == 2 or spec["kind"] == "bn" else (b, 3, spec["d"])
    if f == "emb":
        return (b,) if spec["kind"] == "classic" else (b, spec["in"])
    if f in ("reg", "cls"):
        if spec["mt"] in ("high_order", "high_order_input"):
            return (b, spec["in"])
        return (b, 1, spec["size"])
    raise ValueError(f)


def make_input(spec, d):
    """Tuple of tensors (all batch-first)."""
    b, seed = d["b"], d["seed"]
    if spec["fam"] == "att":
        k, dm, t, q = spec["kind"], spec["d"], spec["t"], spec["q"]
        st = d["style"]

        def f(i, *sh):
            return fill(sh, st if st not in ("boundary", "mixed") else "uniform", derive(seed, i) % (2 ** 31))

        if k in ("scaled", "mha"):
            mask = fill((b, q, t), "uniform", derive(seed, "m") % (2 ** 31)) > 0.2
            mask[:, :, 0] = False  # never mask everything (softmax of all -inf is NaN)
            a = (f(0, b, q, dm), f(1, b, t, dm), f(2, b, t, dm))
            return a + ((mask,) if spec["mask"] else ())
        if k == "dot":
            return (f(0, b, q, dm), f(1, b, t, dm))
        if k == "additive":
            return (f(0, b, 1, dm), f(1, b, t, dm), f(2, b, t, dm))
        if k == "loc":
            return (f(0, b, 1, dm), f(1, b, t, dm)) + ((f(2, b, t).abs(),) if spec["mask"] else (None,))
        if k == "mhloc":
            return (f(0, b, 1, dm), f(1, b, t, dm)) + ((f(2, b, spec["h"], t).abs(),) if spec["mask"] else (None,))
        if k == "rel":
            mask = fill((b, 1 if spec.get("mb") else t, t), "uniform", derive(seed, "m") % (2 ** 31)) > 0.2
            mask[:, :, 0] = False
            return (f(0, b, t, dm), f(1, b, t, dm), f(2, b, t, dm), f(3, b, t, dm)) + ((mask,) if spec["mask"] else ())
    x = fill(in_shape(spec, b), d["style"], seed, segs_of(spec))
    return (x,)


def cast(args, dtype):
    if dtype in (None, "f32"):
        return args
    return tuple(a.double() if torch.is_tensor(a) and a.is_floating_point() else a for a in args)


def layout(args, kind):
    """Same values, different memory layout."""
    if kind in (None, "contig"):
        return args
    out = []
    for a in args:
        if not torch.is_tensor(a) or a.dim() < 1:
            out.append(a)
            continue
        if kind == "transposed" and a.dim() >= 2:
            a = a.transpose(-1, -2).contiguous().transpose(-1, -2)
        elif kind == "batchlast" and a.dim() >= 2:
            a = a.movedim(0, -1).contiguous().movedim(-1, 0)
        elif kind == "sliced":
            big = torch.full(a.shape[:-1] + (2 * a.shape[-1],), 3.25).to(a.dtype)
            big[..., ::2] = a
            a = big[..., ::2]
        elif kind == "expanded":  # all samples are one row in memory
            a = a[:1].expand(a.shape)
        elif kind == "offset":
            big = torch.cat([torch.full((1,) + tuple(a.shape[1:]), 0.5).to(a.dtype), a])
            a = big[1:]
        out.append(a)
    return tuple(out)


LAYOUTS = ["contig", "transposed", "batchlast", "sliced", "offset"]


# --------------------------------------------------------------------------
# calls


def call(model, spec, args, stochastic=False):
    """Model call -> list of result tensors (deterministic part only unless
    `stochastic`)."""
    with env.quiet():
        f = spec["fam"]
        if f == "vae" and not stochastic:
            mu, lv = model.encode(args[0])
            return [mu, lv, model.decode(mu)]
        r = model(*args)
        if f == "vae":
            r = list(r) + [model.generate(args[0]), model.sample(args[0].shape[0])]
            r += [v.reshape(1) for _, v in sorted(model.loss_function(*r[:4], M_N=0.3).items())]
    if torch.is_tensor(r):
        return [r]
    return [t for t in r if torch.is_tensor(t)]


def loss_of(outs, seed=0, per_sample=False):
    """Deterministic scalar (sum over samples) touching every output entry."""
    tot = 0.0
    for i, o in enumerate(outs):
        if not o.is_floating_point():
            continue
        g = torch.Generator().manual_seed(derive(seed, i, tuple(o.shape[1:])) % (2 ** 31))
        w = (torch.rand(o.shape[1:], generator=g, dtype=torch.float64) + 0.5).to(o.dtype)
        tot = tot + (o * w).sum() + 0.1 * (o * o * w).sum()
    return tot


def attn_outputs_batch_first(spec, outs, b):
    """Re-order outputs so that dimension 0 is the sample (multi-head attention
    returns its weights head-major)."""
    if spec["fam"] == "att" and spec["kind"] == "mha":
        c, a = outs
        a = a.view(spec["h"], b, a.shape[1], a.shape[2]).transpose(0, 1)
        return [c, a]
    return outs


def grads_of(model, spec, args, seed=0, inputs=True, stochastic=False):
    """[outputs] and {name: grad} without touching .grad fields."""
    args = tuple(a.detach().clone().requires_grad_(True) if torch.is_tensor(a) and a.is_floating_point() else a
                 for a in args)
    outs = call(model, spec, args, stochastic)
    names, ps = [], []
    for n, p in model.named_parameters():
        if p.requires_grad:
            names.append(n)
            ps.append(p)
    ins = [a for a in args if torch.is_tensor(a) and a.requires_grad] if inputs else []
    l = loss_of(outs, seed)
    if not torch.is_tensor(l) or not l.requires_grad:
        return [o.detach() for o in outs], {}
    gs = torch.autograd.grad(l, ps + ins, allow_unused=True)
    d = {n: (None if g is None else g.detach()) for n, g in zip(names + ["@in%d" % i for i in range(len(ins))], gs)}
    return [o.detach() for o in outs], d
