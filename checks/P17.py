"""P17: analog optimizers update every parameter once per step, as its group says."""
import copy

import torch
from hypothesis import strategies as st
from torch import nn

from aihwkit.nn import AnalogLinear, AnalogSequential
from aihwkit.optim import AnalogAdam, AnalogOptimizer, AnalogSGD
from aihwkit.optim.context import AnalogContext
from vlib import cfg, gen
from vlib.core import Lane
from vlib.util import close, npy, require, same

PROPERTY = "P17"
RULE = ("cases: a chain of analog (ideal update) and digital layers with an analog SGD, Adam or wrapped optimizer (momentum, weight "
        "decay, AdamW, RMSprop), parameter groups with their own learning rates and options, regrouped or not, and a history "
        "of steps (several or no backward passes, gradients cleared in between, closures), learning rate changes (groups, method, "
        "scheduler), regrouping, added groups, frozen layers, devices that decay once per step and optimizer state round trips. After every step all analog weights and "
        "digital parameters equal a reference with the torch optimizer (plain SGD for in-memory updates). Non-trivial: an analog "
        "weight changed and there are two learning rates or a second operation.")
KINDS = {"fp": {"kind": "fp"},
         "single": {"kind": "single", "device": {"cls": "IdealDevice"}, "forward": {"is_perfect": True}, "backward": {"is_perfect": True}},
         "none": {"kind": "single", "device": {"cls": "ConstantStepDevice"}, "update": {"pulse_type": "None"},
                  "forward": {"is_perfect": True}, "backward": {"is_perfect": True}},
         "decay": {"kind": "single", "device": {"cls": "ConstantStepDevice", "lifetime": 8.0, "lifetime_dtod": 0.0, "w_min": -100.0, "w_max": 100.0,
                                                  "w_min_dtod": 0.0, "w_max_dtod": 0.0}, "update": {"pulse_type": "None"},
                   "forward": {"is_perfect": True}, "backward": {"is_perfect": True}},
         "inference": {"kind": "inference", "forward": {"is_perfect": True}}, "torch": {"kind": "torch", "forward": {"is_perfect": True}}}
INMEM = ("fp", "single", "none", "decay")


def _twin():
    class SGD(torch.optim.SGD):
        """Another optimizer of the same name: two steps at once."""
        def step(self, closure=None):
            loss = None if closure is None else closure()
            super().step()
            super().step()
            return loss
    return SGD


OPTS = {"twin": (None, _twin()), "sgd": (AnalogSGD, torch.optim.SGD), "adam": (AnalogAdam, torch.optim.Adam), "wsgd": (None, torch.optim.SGD),
        "adamw": (None, torch.optim.AdamW), "rms": (None, torch.optim.RMSprop)}
LRS = [0.1, 0.02, 0.05, 0.3, 0.0]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    layers = [{"kind": draw(st.sampled_from(list(KINDS) + ["digital"])), "n": draw(st.integers(1, 4)), "b": draw(st.booleans()),
               "omega": 0.0, "grp": draw(st.integers(0, 2)), "s": draw(gen.seeds), "frozen": draw(st.integers(0, 7)) == 7} for _ in range(n)]
    o = draw(st.sampled_from(list(OPTS)))
    if o in ("sgd", "wsgd", "twin"):
        for lay in layers:
            lay["omega"] = draw(st.sampled_from([0.0, 0.6]))
    gopt = {"lr": st.sampled_from(LRS)}
    gl = []
    for _ in range(3):
        g = {k: draw(v) for k, v in gopt.items() if draw(st.booleans())}
        if draw(st.booleans()):
            g["weight_decay"] = draw(st.sampled_from([0.0, 0.1]))
        if o in ("sgd", "wsgd", "twin") and draw(st.booleans()):
            g["momentum"] = draw(st.sampled_from([0.0, 0.5]))
        gl.append(g)
    kw = {"lr": draw(st.sampled_from(LRS))}
    if o in ("sgd", "wsgd", "twin"):
        kw["momentum"] = draw(st.sampled_from([0.0, 0.9]))
    if draw(st.booleans()):
        kw["weight_decay"] = draw(st.sampled_from([0.0, 0.05]))
    step = st.fixed_dictionaries({"op": st.sampled_from(["step", "step", "closure"]), "n": st.one_of(st.integers(0, 2), st.integers(0, 2), st.integers(0, 2), st.integers(3, 12)), "drop": st.integers(0, 3).map(lambda v: int(v == 3)),
                                  "s": gen.seeds, "b": st.integers(1, 3), "zg": st.sampled_from(["opt", "opt", "none", "model"])})
    other = st.one_of(st.fixed_dictionaries({"op": st.just("lr"), "g": st.integers(0, 2), "lr": st.sampled_from(LRS)}),
                      st.fixed_dictionaries({"op": st.just("setlr"), "lr": st.sampled_from(LRS)}),
                      st.fixed_dictionaries({"op": st.sampled_from(["sched", "sched", "regroup", "state", "eval"])}))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.booleans()):
            ops.append(draw(other))
        ops.append(draw(step))
    return {"layers": layers, "n_in": draw(st.integers(1, 4)), "opt": o, "kw": kw, "groups": gl, "ops": ops, "regroup": draw(st.booleans()),
            "plain": draw(st.booleans()), "late": draw(st.integers(0, 3)) == 3, "sched": draw(st.sampled_from(["step", "exp", "lambda"]))}


def scheduler(kind, opt):
    if kind == "step":
        return torch.optim.lr_scheduler.StepLR(opt, 1, 0.5)
    if kind == "exp":
        return torch.optim.lr_scheduler.ExponentialLR(opt, 0.7)
    return torch.optim.lr_scheduler.LambdaLR(opt, lambda e: 1.0 / (1 + e))


def check(c, rec):
    mods, refs, n = [], [], c["n_in"]
    for lay in c["layers"]:
        ref = nn.Linear(n, lay["n"], bias=lay["b"])
        with torch.no_grad():
            ref.weight.copy_(cfg.ten({"k": "uniform", "s": lay["s"], "m": 0.7}, (lay["n"], n)))
            if lay["b"]:
                ref.bias.copy_(cfg.ten({"k": "uniform", "s": lay["s"] + 1, "m": 0.5}, (lay["n"],)))
        if lay["kind"] == "digital":
            mod = copy.deepcopy(ref)
        else:
            spec = dict(KINDS[lay["kind"]])
            spec["mapping"] = {"digital_bias": True, "weight_scaling_omega": lay["omega"], "max_input_size": 0, "max_output_size": 0}
            mod = AnalogLinear(n, lay["n"], bias=lay["b"], rpu_config=cfg.config(spec))
            mod.set_weights(ref.weight.detach().clone(), ref.bias.detach().clone() if lay["b"] else None)
        if lay["frozen"] and lay["b"]:
            (mod.bias if lay["kind"] == "digital" else next(p for nm, p in mod.named_parameters() if nm.endswith("bias"))).requires_grad_(False)
            ref.bias.requires_grad_(False)
        mods.append(mod)
        refs.append(ref)
        n = lay["n"]
    model, refm = AnalogSequential(*mods), nn.Sequential(*refs)
    in_mem = [r.weight for lay, r in zip(c["layers"], refs) if lay["kind"] in INMEM]
    ids = {id(p) for p in in_mem}
    ngrp = 1 if c["plain"] else 3

    def grp(lay):
        return 0 if c["plain"] else lay["grp"]
    late = len(mods) - 1 if c["late"] and len(mods) > 1 else None
    agroups, rgroups, sgroups = [], [], []
    present = []
    for g in range(ngrp):
        extra = {} if c["plain"] else c["groups"][g]
        ap, rp, sp = [], [], []
        for i, (lay, m, r) in enumerate(zip(c["layers"], mods, refs)):
            if grp(lay) == g and i != late:
                ap += list(m.parameters())
                rp += [p for p in r.parameters() if id(p) not in ids]
                sp += [p for p in r.parameters() if id(p) in ids]
        if ap:
            present.append(g)
            agroups.append({"params": ap, **extra})
            rgroups.append({"params": rp, **extra})
            sgroups.append({"params": sp, **({"lr": extra["lr"]} if "lr" in extra else {})})
    acls, tcls = OPTS[c["opt"]]
    plain_params = c["plain"] and late is None

    def new_opt():
        args = agroups[0]["params"] if plain_params else [dict(g, params=list(g["params"])) for g in agroups]
        return acls(args, **c["kw"]) if acls else AnalogOptimizer(tcls, args, **c["kw"])
    opt = new_opt()
    require(isinstance(opt, tcls), f"{type(opt)} is not a {tcls}")
    # the reference optimizers keep empty groups so that group indices agree
    ropt = tcls([dict(g, params=g["params"] or [nn.Parameter(torch.zeros(1))]) for g in rgroups], **c["kw"])
    sopt = torch.optim.SGD([dict(g, params=g["params"] or [nn.Parameter(torch.zeros(1))]) for g in sgroups], lr=c["kw"]["lr"])
    owner = {}
    for k, g in enumerate(agroups):
        for p in g["params"]:
            owner[id(p)] = k
    if c["regroup"]:
        opt.regroup_param_groups(model)
    if late is not None:
        lay = c["layers"][late]
        extra = c["groups"][lay["grp"]]
        opt.add_param_group({"params": list(mods[late].parameters()), **extra})
        dummy = [nn.Parameter(torch.zeros(1))]
        ropt.add_param_group({"params": [p for p in refs[late].parameters() if id(p) not in ids] or dummy, **extra})
        sopt.add_param_group({"params": [p for p in refs[late].parameters() if id(p) in ids] or [nn.Parameter(torch.zeros(1))],
                              **({"lr": extra["lr"]} if "lr" in extra else {})})
        for p in mods[late].parameters():
            owner[id(p)] = len(agroups)
    kinds = [lay["kind"] for lay in c["layers"]]
    scheds = None
    opts = set()
    changed = False
    lr_set = set()

    def groups_of():
        """reference group index of each optimizer group"""
        return [owner[id(g["params"][0])] for g in opt.param_groups]

    def compare(tag):
        for i, (lay, m, r) in enumerate(zip(c["layers"], mods, refs)):
            w, b = (m.weight, m.bias) if lay["kind"] == "digital" else m.get_weights()
            close(w, r.weight, f"{tag}: layer {i} ({lay['kind']}) weights", rtol=2e-4, atol=2e-5)
            if lay["b"]:
                close(b, r.bias, f"{tag}: layer {i} ({lay['kind']}) bias", rtol=2e-4, atol=2e-5)
    compare("start")
    for i, o in enumerate(c["ops"]):
        tag = f"op {i} {o['op']}"
        opts.add(o["op"])
        if o["op"] == "lr":
            gi = o["g"] % len(ropt.param_groups)
            for g, own in zip(opt.param_groups, groups_of()):
                if own == gi:
                    g["lr"] = o["lr"]
            ropt.param_groups[gi]["lr"] = sopt.param_groups[gi]["lr"] = o["lr"]
        elif o["op"] == "setlr":
            opt.set_learning_rate(o["lr"])
            for g in ropt.param_groups + sopt.param_groups:
                g["lr"] = o["lr"]
            for m in model.analog_tiles():
                require(m.get_learning_rate() is None or abs(m.get_learning_rate() - o["lr"]) < 1e-6, f"{tag}: tile learning rate {m.get_learning_rate()}")
        elif o["op"] == "sched":
            if scheds is None:
                scheds = [scheduler(c["sched"], q) for q in (opt, ropt, sopt)]
            else:
                for q in scheds:
                    q.step()
        elif o["op"] == "regroup":
            if scheds is None:
                opt.regroup_param_groups(model)
        elif o["op"] == "state":
            sd = copy.deepcopy(opt.state_dict())
            if scheds is None:
                lrs = {id(p): g["lr"] for g in opt.param_groups for p in g["params"]}
                opt2 = new_opt()
                if c["regroup"] or "regroup" in opts:
                    opt2.regroup_param_groups(model)
                if late is not None:
                    opt2.add_param_group({"params": list(mods[late].parameters()), **c["groups"][c["layers"][late]["grp"]]})
                    if "regroup" in opts:
                        opt2.regroup_param_groups(model)
                if [len(g["params"]) for g in opt2.param_groups] == [len(g["params"]) for g in opt.param_groups] and \
                        [id(p) for g in opt2.param_groups for p in g["params"]] == [id(p) for g in opt.param_groups for p in g["params"]]:
                    opt2.load_state_dict(sd)
                    opt = opt2
                    for g in opt.param_groups:
                        for p in g["params"]:
                            require(g["lr"] == lrs[id(p)], f"{tag}: learning rate {g['lr']} after loading the optimizer state")
            else:
                opt.load_state_dict(sd)
        elif o["op"] == "eval":
            model.eval()
            with torch.no_grad():
                close(model(torch.ones(2, c["n_in"])), refm(torch.ones(2, c["n_in"])), f"{tag}: output", rtol=1e-3, atol=1e-4)
            model.train()
        else:
            xs = [cfg.ten({"k": "uniform", "s": o["s"] + 7 * k}, (o["b"], c["n_in"])) for k in range(max(o["n"], 1) + o["drop"])]
            tgt = cfg.ten({"k": "uniform", "s": o["s"] + 3}, (o["b"], n))
            before = [npy(r.weight).copy() for r in refs]

            def run(mod, sel):
                loss = 0.0
                for x in sel:
                    part = ((mod(x) - tgt) ** 2).sum() / len(xs)
                    part.backward()
                    loss += part.item()
                return loss

            def clear():
                if o["zg"] == "opt":
                    opt.zero_grad()
                    ropt.zero_grad()
                    sopt.zero_grad()
                elif o["zg"] == "model":
                    opt.zero_grad()
                    refm.zero_grad()
            if o["op"] == "closure":
                called = []

                def closure():
                    called.append(1)
                    opt.zero_grad()
                    with torch.enable_grad():
                        return torch.tensor(run(model, xs))
                ropt.zero_grad()
                sopt.zero_grad()
                want = run(refm, xs)
                got = opt.step(closure)
                require(len(called) == 1, f"{tag}: closure called {len(called)} times")
                close(got, want, f"{tag}: loss returned by step", rtol=1e-3, atol=1e-4)
            else:
                if o["drop"]:                       # gradients discarded before the step
                    run(model, xs[:1])
                    run(refm, xs[:1])
                    if o["zg"] == "none":
                        o["zg"] = "opt"
                    clear()
                elif o["zg"] != "none" or any(k not in INMEM for k in kinds):
                    if o["zg"] == "none":
                        o["zg"] = "opt"
                    clear()
                else:
                    clear_refs = True
                    opt.zero_grad()
                    ropt.zero_grad()
                    sopt.zero_grad()
                if o["n"]:
                    run(model, xs[:o["n"]])
                    run(refm, xs[:o["n"]])
                opt.step()
            ropt.step()
            sopt.step()
            with torch.no_grad():           # the devices decay once per step, whatever the learning rate
                for lay, r in zip(c["layers"], refs):
                    if lay["kind"] == "decay":
                        r.weight.mul_(1.0 - 1.0 / 8.0)
            if not all(torch.isfinite(p).all() and float(p.detach().abs().max()) < 20 for p in refm.parameters()):
                rec.label("diverged")
                return
            compare(tag)
            # nothing left over: another step without backward changes no in-memory weight
            for m, lay in zip(mods, c["layers"]):
                if lay["kind"] in INMEM:
                    ctx = next(m.analog_tiles()).analog_ctx
                    require(not ctx.has_gradient(), f"{tag}: gradients left after the step")
            if any(((npy(r.weight) - b0) != 0).any() for r, b0, k in zip(refs, before, kinds) if k != "digital"):
                changed = True
            lr_set |= {g["lr"] for g in opt.param_groups}
    # each parameter is in exactly one group
    seen = [id(p) for g in opt.param_groups for p in g["params"]]
    require(sorted(seen) == sorted(id(p) for p in model.parameters()), "the optimizer lost or duplicated parameters")
    if c["regroup"]:
        for g in opt.param_groups:
            if any(isinstance(p, AnalogContext) for p in g["params"]) and (late is None):
                require(len(g["params"]) == 1, "analog parameters are not isolated after regrouping")
    rec.label(c["opt"], "regroup" if c["regroup"] else "-", f"groups={len(agroups)}", "late" if late is not None else "-", *opts, *kinds)
    rec.hit(changed and (len(lr_set) > 1 or len(c["ops"]) > 1))


LANES = [Lane("history", cases(), check, quick=1600, thorough=30000)]
