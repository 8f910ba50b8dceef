"""P19: experiments reach the cloud and come back unchanged, and experiments that run locally report what really happened."""
import contextlib
import copy
import io
import json
import tempfile
from datetime import datetime, timedelta, timezone
from unittest import mock

import numpy as np
import requests
import torch
from hypothesis import strategies as st
from torch import nn
from torchvision.datasets import SVHN, FashionMNIST

from aihwkit.cloud.client.entities import CloudExperimentCategory, CloudJobStatus
from aihwkit.cloud.client.exceptions import ApiResponseError, CredentialsError, ExperimentStatusError
from aihwkit.cloud.converter.definitions import i_output_file_pb2, output_file_pb2
from aihwkit.cloud.converter.exceptions import ConversionError
from aihwkit.cloud.converter.v1.inferencing import BasicInferencingConverter, BasicInferencingResultConverter
from aihwkit.cloud.converter.v1.training import BasicTrainingConverter, BasicTrainingResultConverter
from aihwkit.experiments import BasicInferencing, BasicTraining
from aihwkit.experiments.experiments.base import Signals
from aihwkit.experiments.runners import CloudRunner, InferenceCloudRunner, InferenceLocalRunner, LocalRunner
from aihwkit.inference import GlobalDriftCompensation, PCMLikeNoiseModel, StateIndependentNoiseModel
from aihwkit.nn import AnalogConv2d, AnalogConv2dMapped, AnalogLinear, AnalogLinearMapped, AnalogSequential
from aihwkit.simulator import presets
from aihwkit.simulator.configs import FloatingPointRPUConfig, InferenceRPUConfig
from aihwkit.simulator.presets import web
from vlib import gen
from vlib.core import Lane
from vlib.util import close, npy, raises, require

PROPERTY = "P19"
RULE = ("cases: lane convert: training and inference experiments with drawn networks and settings, to protobuf bytes and back; lane cloud: histories of "
        "submissions, job progress, status, experiment and result requests against an in-memory server that speaks the REST protocol; lanes train and "
        "infer: local runs on drawn data sets against plain torch loops. Non-trivial: an analog layer was converted; a result was fetched; weights changed.")

PRESETS = ["ReRamES", "ReRamSB", "Capacitor", "EcRam", "Idealized", "PCM", "MixedPrecisionReRamES", "MixedPrecisionReRamSB", "MixedPrecisionCapacitor", "MixedPrecisionEcRam",
           "MixedPrecisionIdealized", "MixedPrecisionPCM", "TikiTakaReRamES", "TikiTakaReRamSB", "TikiTakaCapacitor", "TikiTakaEcRam", "TikiTakaIdealized"]
INFER = {"InferenceRPUConfig": InferenceRPUConfig, "OldWebComposerInferenceRPUConfig": web.OldWebComposerInferenceRPUConfig, "WebComposerInferenceRPUConfig": web.WebComposerInferenceRPUConfig}
DATASETS = {"f": FashionMNIST, "s": SVHN}
LOSSES = {"nll": nn.NLLLoss, "bce": nn.BCELoss, "ce": nn.CrossEntropyLoss, "mse": nn.MSELoss}
POS = gen.floats(0.001, 4.0)


# ---- networks

def conv(transposed=False):
    two = st.one_of(st.integers(1, 3), st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list))
    d = {"in_channels": st.integers(1, 3), "out_channels": st.integers(1, 3), "kernel_size": two, "stride": two, "padding": st.one_of(st.just(0), two), "dilation": two, "bias": st.booleans()}
    if transposed:
        d["stride"] = st.sampled_from([2, [3, 2]])
        d["output_padding"] = st.sampled_from([0, 1, [1, 0]])
    return st.fixed_dictionaries(d)


LIN = st.fixed_dictionaries({"in_features": st.integers(1, 5), "out_features": st.integers(1, 5), "bias": st.booleans()})
DIGITAL = {"Conv2d": conv(), "ConvTranspose2d": conv(True), "Linear": LIN, "BatchNorm2d": st.fixed_dictionaries({"num_features": st.integers(1, 5)}), "Flatten": st.just({}),
           "MaxPool2d": st.fixed_dictionaries({"kernel_size": st.integers(2, 4), "stride": st.integers(1, 3), "padding": st.integers(0, 1), "dilation": st.integers(1, 2), "ceil_mode": st.booleans()}),
           "LeakyReLU": st.fixed_dictionaries({"negative_slope": st.sampled_from([0.01, 0.2, 0.5])}), "LogSigmoid": st.just({}), "LogSoftmax": st.fixed_dictionaries({"dim": st.integers(-1, 2)}),
           "ReLU": st.just({}), "Sigmoid": st.just({}), "Softmax": st.fixed_dictionaries({"dim": st.integers(-1, 2)}), "Tanh": st.just({})}
ANALOG = {"AnalogLinear": LIN, "AnalogConv2d": conv(), "AnalogLinearMapped": LIN, "AnalogConv2dMapped": conv()}


@st.composite
def networks(draw, infer):
    layers = []
    preset = draw(st.sampled_from(sorted(INFER))) if infer else None
    for i in range(draw(st.integers(1, 4))):
        if draw(st.booleans()) or (infer and not i):        # (an inference experiment is recognised by its analog layers)
            k = draw(st.sampled_from(sorted(ANALOG) if infer else ["AnalogLinear", "AnalogConv2d"]))
            a = draw(ANALOG[k])
            if k == "AnalogConv2dMapped" and preset == "OldWebComposerInferenceRPUConfig":
                a["bias"] = False       # (has an analog bias)
            layers.append({"k": k, "a": a, "q": preset or draw(st.sampled_from(PRESETS)), "omega": None if infer else draw(st.sampled_from([None, 0.0, 0.6, 1.0]))})
        else:
            k = draw(st.sampled_from(sorted(DIGITAL)))
            layers.append({"k": k, "a": draw(DIGITAL[k])})
    return layers


def build(layers):
    out = []
    for d in layers:
        a = {k: tuple(v) if isinstance(v, list) else v for k, v in d["a"].items()}
        if d["k"] in ANALOG:
            q = INFER[d["q"]]() if d["q"] in INFER else getattr(presets, d["q"] + "Preset")()
            if d["omega"] is not None:
                q.mapping.weight_scaling_omega = d["omega"]
            out.append({"AnalogLinear": AnalogLinear, "AnalogConv2d": AnalogConv2d, "AnalogLinearMapped": AnalogLinearMapped, "AnalogConv2dMapped": AnalogConv2dMapped}[d["k"]](**a, rpu_config=q))
        else:
            out.append(getattr(nn, d["k"])(**a))
    return AnalogSequential(*out)


def same_network(layers, model, what, infer):
    got = list(model.children())
    require(isinstance(model, AnalogSequential) and len(got) == len(layers), f"{what}: {len(got)} layers instead of {len(layers)}")
    ref = list(build(layers).children())
    for i, (d, g, r) in enumerate(zip(layers, got, ref)):
        where = f"{what}, layer {i}"
        require(type(g) is type(r), f"{where}: {type(g).__name__} instead of {type(r).__name__}")
        for k, v in d["a"].items():
            if k != "bias":
                gv, rv = getattr(g, k), getattr(r, k)
                tup = lambda t: tuple(t) if isinstance(t, (tuple, list)) else (t, t) if isinstance(v, list) or k in ("kernel_size", "stride", "padding", "dilation", "output_padding") else t
                require(tup(gv) == tup(rv) or (isinstance(rv, float) and abs(gv - rv) < 1e-6), f"{where}: {k} is {gv} instead of {rv}")
        if d["k"] in ANALOG:
            require((g.get_weights()[1] is not None) == d["a"]["bias"], f"{where}: bias is {g.get_weights()[1]}, the layer was made with bias={d['a']['bias']}")
            qg, qr = next(g.analog_tiles()).rpu_config, next(r.analog_tiles()).rpu_config
            require(type(qg) is type(qr), f"{where}: {type(qg).__name__} instead of {type(qr).__name__}")
            if not infer:
                require(abs(qg.mapping.weight_scaling_omega - qr.mapping.weight_scaling_omega) < 1e-6, f"{where}: weight scaling omega {qg.mapping.weight_scaling_omega}, not {qr.mapping.weight_scaling_omega}")
                require(type(qg.device) is type(qr.device), f"{where}: device {type(qg.device).__name__}")
            sg, sr = [w.shape for w in g.get_weights() if w is not None], [w.shape for w in r.get_weights() if w is not None]
            require(sg == sr, f"{where}: weights of shapes {sg}, not {sr}")
        else:
            sg, sr = {k: v.shape for k, v in g.state_dict().items()}, {k: v.shape for k, v in r.state_dict().items()}
            require(sg == sr, f"{where}: parameters {sg}, not {sr}")


# ---- experiments

@st.composite
def experiments(draw):
    if draw(st.booleans()):
        return {"t": "train", "data": draw(st.sampled_from("fs")), "net": draw(networks(False)), "batch": draw(st.integers(1, 500)), "loss": draw(st.sampled_from(sorted(LOSSES))),
                "epochs": draw(st.integers(1, 90)), "lr": draw(POS)}
    device = draw(st.sampled_from(["pcm", "generic"]))
    nm = {"device_id": device, "drift_compensation": draw(st.booleans())}
    for k in ["programming_noise_scale", "read_noise_scale", "drift_scale", "poly_first_order_coef", "poly_second_order_coef", "poly_constant_coef"] + (["drift_mean", "drift_std"] if device == "generic" else []):
        nm[k] = draw(gen.floats(-3.0, 3.0)) if "poly" in k else draw(st.one_of(POS, st.just(0.0)))
    return {"t": "infer", "data": draw(st.sampled_from("fs")), "net": draw(networks(True)), "batch": draw(st.integers(1, 500)), "template": draw(st.sampled_from(["", "hwa", "web/lenet5"])),
            "repeats": draw(st.integers(1, 9)), "time": draw(st.integers(1, 10 ** 7)), "analog": {"output_noise_strength": draw(POS), "adc": draw(st.integers(2, 12)), "dac": draw(st.integers(2, 12))}, "nm": nm}


def make(e):
    if e["t"] == "train":
        return BasicTraining(DATASETS[e["data"]], build(e["net"]), e["batch"], LOSSES[e["loss"]], e["epochs"], e["lr"])
    return BasicInferencing(DATASETS[e["data"]], build(e["net"]), e["batch"], weight_template_id=e["template"], inference_repeats=e["repeats"], inference_time=e["time"])


def near(a, b, what):
    require(abs(a - b) <= 2e-6 * abs(b) + 1e-30, f"{what} is {a!r}, expected {b!r}")


def same_experiment(e, x, what):
    train = e["t"] == "train"
    require(type(x) is (BasicTraining if train else BasicInferencing), f"{what}: {type(x).__name__}")
    require(x.dataset is DATASETS[e["data"]] and x.batch_size == e["batch"], f"{what}: dataset {x.dataset}, batch size {x.batch_size}")
    if train:
        require(x.loss_function is LOSSES[e["loss"]] and x.epochs == e["epochs"], f"{what}: loss {x.loss_function}, epochs {x.epochs}")
        near(x.learning_rate, e["lr"], f"{what}: learning rate")
    else:
        require((x.weight_template_id, x.inference_repeats, x.inference_time) == (e["template"], e["repeats"], e["time"]),
                f"{what}: template, repeats and time {(x.weight_template_id, x.inference_repeats, x.inference_time)}")
    same_network(e["net"], x.model, what, not train)
    if not train:
        for i, (d, g) in enumerate(zip(e["net"], x.model.children())):
            if d["k"] in ANALOG:
                for t in g.analog_tiles():
                    same_inference(e, t.rpu_config, f"{what}, layer {i}")


def same_inference(e, q, what):
    nm = e["nm"]
    near(q.forward.out_noise, e["analog"]["output_noise_strength"], f"{what}: output noise")
    near(q.forward.out_res, 1 / (2 ** e["analog"]["adc"] - 2), f"{what}: output resolution")
    near(q.forward.inp_res, 1 / (2 ** e["analog"]["dac"] - 2), f"{what}: input resolution")
    n = q.noise_model
    require(type(n) is (PCMLikeNoiseModel if nm["device_id"] == "pcm" else StateIndependentNoiseModel), f"{what}: noise model {type(n).__name__}")
    near(n.prog_noise_scale, nm["programming_noise_scale"], f"{what}: programming noise")
    near(n.read_noise_scale, nm["read_noise_scale"], f"{what}: read noise")
    near(n.drift_scale, nm["drift_scale"], f"{what}: drift scale")
    for i, k in enumerate(("poly_constant_coef", "poly_first_order_coef", "poly_second_order_coef")):
        near(n.prog_coeff[i], nm[k], f"{what}: programming coefficient {i}")
    if nm["device_id"] == "generic":
        near(n.drift_nu_mean, nm["drift_mean"], f"{what}: mean drift")
        near(n.drift_nu_std, nm["drift_std"], f"{what}: spread of the drift")
    require(isinstance(q.drift_compensation, GlobalDriftCompensation) if nm["drift_compensation"] else q.drift_compensation is None, f"{what}: drift compensation {q.drift_compensation}")


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


UNSUPPORTED = [("GELU", {}), ("Linear", {}), ("MaxPool1d", {"kernel_size": 2})]


@st.composite
def convert_cases(draw):
    return {"e": draw(experiments()), "bad": draw(st.sampled_from([None] * 8 + ["layer", "model", "dataset", "preset", "loss"])), "lossy": False}


def check_convert(c, rec):
    e = c["e"]
    x = make(e)
    conv_ = BasicTrainingConverter() if e["t"] == "train" else BasicInferencingConverter()
    args = () if e["t"] == "train" else (e["analog"], e["nm"])
    if c["lossy"]:
        # options the format has no field for
        x.model = AnalogSequential(nn.Conv2d(2, 2, 3, groups=2))
        got = conv_.from_proto(conv_.to_proto(x, *args)).model[0]
        if got.groups == 2:
            return
        rec.known.append(("F98", f"a convolution with {x.model[0].groups} groups became one with {got.groups}"))
        return
    if c["bad"]:
        if c["bad"] == "layer":
            x.model.append(nn.GELU())
        elif c["bad"] == "model":
            x.model = nn.Sequential(*x.model.children())
        elif c["bad"] == "dataset":
            x.dataset = nn.Linear
        elif c["bad"] == "preset":
            x.model.append(AnalogLinear(2, 2, rpu_config=FloatingPointRPUConfig()))
        elif e["t"] == "train":
            x.loss_function = nn.L1Loss
        else:
            return
        rec.label("bad")
        raises(lambda: conv_.to_proto(x, *args), ConversionError, f"unsupported {c['bad']}")
        return
    before = [[None if w is None else npy(w).copy() for w in (m.get_weights() if hasattr(m, "get_weights") else [])] for m in x.model]
    p = conv_.to_proto(x, *args)
    raw = p.SerializeToString()
    for m, ws in zip(x.model, before):
        require(not ws or all(w is None or np.array_equal(npy(g), w) for g, w in zip(m.get_weights(), ws)), "the conversion changed the weights")
    q = type(p)()
    q.ParseFromString(raw)
    with quiet():
        y = conv_.from_proto(q)
        same_experiment(e, y, "converted experiment")
        # and once more
        p2 = conv_.to_proto(y, *args)
    require(p2 == p or e["t"] == "infer" or p2.SerializeToString() == raw, "the representation of the converted experiment differs")
    if e["t"] == "infer":
        a = conv_._analog_info_from_proto(q.inferencing.analog_info)
        n = conv_._noise_model_from_proto(q.inferencing.noise_model_info)
        require(set(n) == set(e["nm"]) and set(a) == set(e["analog"]), f"infos have the fields {sorted(n)} and {sorted(a)}")
        for k, v in {**e["nm"], **e["analog"]}.items():
            g = {**n, **a}[k]
            require(g == v if isinstance(v, (str, bool)) else abs(g - v) <= 2e-6 * abs(v), f"{k} is {g}, expected {v}")
        with quiet():
            same_inference(e, conv_.rpu_config_from_info(e["analog"], e["nm"]), "configuration from infos")
    rec.hit(any(d["k"] in ANALOG for d in e["net"]))
    rec.label(e["t"])


# ---- the cloud

TOKEN, JWT, API, STORE = "tok-1", "jwt-7", "http://cloud.test/api", "http://store.test/files"
STATUS = {"waiting": CloudJobStatus.WAITING, "validating": CloudJobStatus.WAITING, "validated": CloudJobStatus.WAITING, "running": CloudJobStatus.RUNNING, "failed": CloudJobStatus.FAILED,
          "cancelled": CloudJobStatus.FAILED, "completed": CloudJobStatus.COMPLETED}


class Server:
    """The service: experiments, inputs, jobs and outputs, and an object storage."""

    def __init__(self):
        self.exps, self.inputs, self.jobs, self.outputs, self.store, self.n = {}, {}, {}, {}, {}, 0
        self.log = []

    def new(self, table, **kw):
        self.n += 1
        i = f"{table[:3]}-{self.n}"
        getattr(self, table)[i] = kw
        return i

    def view(self, i):
        e = self.exps[i]
        out = {"id": i, "name": e["name"], "category": e["category"], "createdAt": e["created"].strftime("%Y-%m-%dT%H:%M:%S.%fZ")}
        if e["input"]:
            out["input"] = {"id": e["input"]}
        if e["job"]:
            out["job"] = self.job(e["job"])
        return out

    def job(self, i):
        j = self.jobs[i]
        return {"id": i, "status": j["status"], **({"output": j["output"]} if j["output"] else {})}

    def handle(self, method, url, headers, body):
        self.log.append((method, url))
        if url.startswith(STORE):
            if method == "PUT":
                self.store[url] = body
                return 200, b""
            return (200, self.store[url]) if url in self.store else (404, b"")
        require(url.startswith(API + "/"), f"request to {url}")
        path = url[len(API) + 1:].split("/")
        data = json.loads(body) if body else {}
        if path == ["token", "login"] and method == "POST":
            return (200, {"jwt": JWT}) if data.get("token") == TOKEN else (400, {"message": "bad token"})
        if headers.get("Authorization") != f"Bearer {JWT}":
            return 401, {"message": "unauthorised"}
        if path == ["experiments"] and method == "POST":
            return 200, self.view(self.new("exps", name=data["name"], category=data["category"], input=None, job=None, created=datetime(2024, 1, 1, tzinfo=timezone.utc) + timedelta(hours=self.n, microseconds=17)))
        if path == ["inputs"] and method == "POST":
            i = self.new("inputs", device=data["device"])
            self.inputs[i]["url"] = f"{STORE}/{i}"
            self.exps[data["experiment"]]["input"] = i
            return 200, {"id": i, "url": self.inputs[i]["url"]}
        if path == ["jobs"] and method == "POST":
            i = self.new("jobs", status="waiting", output=None, device=data["device"])
            self.exps[data["experiment"]]["job"] = i
            return 200, self.job(i)
        if method == "GET" and path == ["experiments", "me"]:
            return 200, [self.view(i) for i in self.exps]
        if method == "GET" and len(path) > 1:
            table = getattr(self, {"experiments": "exps"}.get(path[0], path[0]), {})
            if path[1] in table:
                if path[0] in ("inputs", "outputs") and path[2:] == ["file"]:
                    return 200, {"url": table[path[1]]["url"]}
                if path[0] in ("experiments", "jobs") and len(path) == 2:
                    return 200, (self.view if path[0] == "experiments" else self.job)(path[1])
        return 404, {"message": "not found"}


class Adapter:
    def __init__(self, server):
        self.server = server

    def send(self, request, **_):
        body = request.body
        if isinstance(body, bytes) and not request.url.startswith(STORE):
            body = body.decode()
        if isinstance(body, str) and request.url.startswith(STORE):
            body = body.encode()
        status, content = self.server.handle(request.method, request.url, request.headers, body)
        r = requests.Response()
        r.status_code, r.url, r.request, r.reason = status, request.url, request, "reason"
        r._content = content if isinstance(content, bytes) else json.dumps(content).encode()
        return r

    def close(self):
        pass


@st.composite
def cloud_cases(draw):
    op = st.one_of(st.fixed_dictionaries({"op": st.just("submit"), "e": experiments(), "name": st.sampled_from(["", "my run"]), "device": st.sampled_from(["gpu", "cpu"])}),
                   st.fixed_dictionaries({"op": st.sampled_from(["status", "status", "result", "result", "experiment", "get", "list", "foreign"]), "k": st.integers(0, 5)}),
                   st.fixed_dictionaries({"op": st.just("progress"), "k": st.integers(0, 5), "to": st.sampled_from(["completed", "validating", "validated", "running", "running", "completed", "completed", "failed", "cancelled"]),
                                          "then": st.sampled_from([None, "result", "result", "experiment", "status"]),
                                          "r": st.lists(st.lists(gen.floats(-5.0, 100.0), min_size=5, max_size=5), min_size=0, max_size=4)}))
    return {"first": draw(experiments()), "ops": draw(st.lists(op, min_size=2, max_size=9)), "bad": draw(st.integers(0, 19)) == 7}


def results_proto(e, rows):
    """(bytes, expected result) of a finished job."""
    if e["t"] == "train":
        out = output_file_pb2.TrainingOutput()
        conv_ = BasicTrainingConverter()
        out.version.CopyFrom(type(out.version)(schema=1, opset=1))
        out.network.SetInParent()
        want = []
        for i, r in enumerate(rows):
            ep = out.epochs.add()
            ep.epoch = i
            names = ["accuracy", "train_loss", "valid_loss"]
            for n, v in zip(names, r):
                m = ep.metrics.add()
                m.name, m.f = n, v
                m.type = type(m).FLOAT if hasattr(type(m), "FLOAT") else 1
            want.append({"epoch": i, "metrics": dict(zip(names, r))})
        return out.SerializePartialToString(), want
    keys = ["t_inference", "avg_accuracy", "std_accuracy", "avg_error", "avg_loss"]
    want = [dict(zip(keys, r)) for r in rows]
    runs = {"inference_runs": {"inference_repeat": e["repeats"], "is_partial": False, "time_elapsed": 3.5, "inference_results": want}}
    p = BasicInferencingResultConverter().to_proto(runs)
    back = BasicInferencingResultConverter.to_json_from_pb(p)["inference_runs"]
    require(back["inference_repeat"] == e["repeats"] and back["is_partial"] is False and back["time_elapsed"] == 3.5 and len(back["inference_results"]) == len(want), f"results became {back}")
    return p.SerializeToString(), want


def same_result(got, want, what):
    require(isinstance(got, list) and len(got) == len(want), f"{what}: {len(got)} entries instead of {len(want)}")
    for g, w in zip(got, want):
        require(set(g) == set(w), f"{what}: fields {sorted(g)}")
        for k, v in w.items():
            if isinstance(v, dict):
                require(set(g[k]) == set(v), f"{what}: metrics {sorted(g[k])}")
                for m in v:
                    near(g[k][m], v[m], f"{what}: {m}")
            else:
                near(g[k], v, f"{what}: {k}")


def check_cloud(c, rec):
    server = Server()
    with mock.patch.object(requests.Session, "get_adapter", lambda self, url: Adapter(server)), quiet():
        if c["bad"]:
            raises(lambda: CloudRunner(API, "wrong"), CredentialsError, "wrong token")
            raises(lambda: InferenceCloudRunner(API, "wrong"), CredentialsError, "wrong token")
        runners = {"train": CloudRunner(API, TOKEN), "infer": InferenceCloudRunner(API, TOKEN)}
        subs, hit = [], False
        ops = [{"op": "submit", "e": c["first"], "name": "", "device": "gpu"}]
        for o in c["ops"]:
            ops += [o] + ([{"op": o["then"], "k": o["k"]}] if o.get("then") else [])
        for j, o in enumerate(ops):
            op, what = o["op"], f"step {j} ({o['op']})"
            rec.label(op)
            if op == "submit":
                e, r = o["e"], runners[o["e"]["t"]]
                x = make(e)
                ce = r.run(x, **({"analog_info": e["analog"], "noise_model_info": e["nm"]} if e["t"] == "infer" else {}), name=o["name"], device=o["device"])
                require(ce.id_ in server.exps, f"{what}: identifier {ce.id_}")
                s = server.exps[ce.id_]
                require(s["category"] == ("train" if e["t"] == "train" else "inference") and (s["name"] == o["name"] or not o["name"]) and s["name"], f"{what}: stored as {s}")
                require(server.inputs[s["input"]]["device"] == o["device"] == server.jobs[s["job"]]["device"], f"{what}: device")
                subs.append({"id": ce.id_, "e": e, "ce": ce, "want": None})
                continue
            k = o.get("k", 0) % len(subs)
            s = subs[k]
            ex = server.exps[s["id"]]
            job = server.jobs[ex["job"]]
            if op == "progress":
                if job["status"] not in ("completed", "failed", "cancelled"):
                    job["status"] = o["to"]
                    if o["to"] == "completed":
                        raw, s["want"] = results_proto(s["e"], o["r"])
                        i = server.new("outputs")
                        server.outputs[i]["url"] = f"{STORE}/{i}"
                        server.store[f"{STORE}/{i}"] = raw
                        job["output"] = i
            elif op == "get":
                s["ce"] = runners[s["e"]["t"]].get_cloud_experiment(s["id"])
                ce = s["ce"]
                require((ce.id_, ce.name, ce.created_at) == (s["id"], ex["name"], ex["created"]), f"{what}: got {ce} of {ce.created_at}, expected {ex}")
            elif op == "list":
                for r in runners.values():
                    ls = r.list_cloud_experiments()
                    require([x.id_ for x in ls] == list(server.exps), f"{what}: {[x.id_ for x in ls]}")
                    for x in ls:
                        t = next(v for v in subs if v["id"] == x.id_)
                        cat = CloudExperimentCategory.BASIC_TRAINING if t["e"]["t"] == "train" else CloudExperimentCategory.BASIC_INFERENCE
                        require(x.category is cat and x.name == server.exps[x.id_]["name"], f"{what}: {x}")
                s["ce"] = ls[k]
            elif op == "status":
                got = s["ce"].status()
                require(got is STATUS[job["status"]], f"{what}: {got} although the job is {job['status']}")
            elif op == "experiment":
                same_experiment(s["e"], s["ce"].get_experiment(), what)
                hit |= any(d["k"] in ANALOG for d in s["e"]["net"])
            elif op == "result":
                if job["status"] != "completed":
                    raises(s["ce"].get_result, ExperimentStatusError, f"{what} of a job that is {job['status']}")
                else:
                    same_result(s["ce"].get_result(), s["want"], what)
                    hit = True
            elif op == "foreign":
                raises(lambda: runners["train"].get_cloud_experiment("nothing"), ApiResponseError, "unknown experiment")
    rec.hit(hit)


# ---- local runs

def dataset_class(n_train, n_test, n_in, classes, seed):
    """A data set class which logs the accesses."""
    g = torch.Generator().manual_seed(seed)
    data = {k: (torch.randn(n, n_in, generator=g), torch.randint(classes, (n,), generator=g)) for k, n in (("train", n_train), ("test", n_test))}
    log = {"train": [], "test": []}

    class Set(torch.utils.data.Dataset):
        def __init__(self, root, transform=None, train=True):
            self.k = "train" if train else "test"

        def __len__(self):
            return len(data[self.k][0])

        def __getitem__(self, i):
            log[self.k].append(int(i))
            return data[self.k][0][i], data[self.k][1][i]
    return Set, data, log


@st.composite
def train_cases(draw):
    return {"n": draw(st.integers(1, 9)), "v": draw(st.integers(1, 7)), "batch": draw(st.integers(1, 5)), "epochs": draw(st.integers(1, 3)), "lr": draw(gen.floats(0.01, 0.5)), "max": draw(st.sampled_from([0, 0, 1, 3])),
            "loss": draw(st.sampled_from(["nll", "ce"])), "hidden": draw(st.integers(1, 5)), "act": draw(st.sampled_from(["ReLU", "Tanh", "Sigmoid"])), "drop": draw(st.booleans()), "seed": draw(gen.seeds),
            "direct": draw(st.booleans()), "bias": draw(st.booleans())}


def classifier(c, q, loss):
    ls = [AnalogLinear(3, c["hidden"], bias=c["bias"], rpu_config=q()), getattr(nn, c["act"])(), AnalogLinear(c["hidden"], 3, bias=c["bias"], rpu_config=q())]
    return AnalogSequential(*ls, *([nn.LogSoftmax(dim=1)] if loss == "nll" else []))


def check_train(c, rec):
    torch.manual_seed(c["seed"])
    Set, data, log = dataset_class(c["n"], c["v"], 3, 3, c["seed"])
    model = classifier(c, FloatingPointRPUConfig, c["loss"])
    ref = nn.Sequential(*[nn.Linear(m.in_features, m.out_features, bias=c["bias"]) if isinstance(m, AnalogLinear) else copy.deepcopy(m) for m in model])
    for m, r in zip(model, ref):
        if isinstance(r, nn.Linear):
            w, b = m.get_weights()
            r.weight.data = w.clone()
            if b is not None:
                r.bias.data = b.clone()
    n, v = (min(c["max"], c["n"]), min(c["max"], c["v"])) if c["max"] else (c["n"], c["v"])
    if c["max"] and (n < c["max"] or v < c["max"]):
        return          # (the limit exceeds the data)
    x = BasicTraining(Set, model, c["batch"], LOSSES[c["loss"]], c["epochs"], c["lr"])
    events = []
    if c["direct"]:
        for s in Signals:
            x.add_hook(s, lambda *a, s=s: events.append((s, a)))
        results = x.run(c["max"], "/nowhere")
    else:
        results = LocalRunner().run(x, max_elements_train=c["max"], dataset_root="/nowhere")
    require(len(results) == c["epochs"] and [r["epoch"] for r in results] == list(range(c["epochs"])), f"results {results}")
    require(len(log["train"]) == n * c["epochs"] and len(log["test"]) == v * c["epochs"], f"{len(log['train'])} training and {len(log['test'])} validation samples used, expected {n} and {v} in {c['epochs']} epochs")
    loss = LOSSES[c["loss"]]()
    opt = torch.optim.SGD(ref.parameters(), lr=c["lr"])
    want = []
    for e in range(c["epochs"]):
        order, vorder = log["train"][e * n:(e + 1) * n], log["test"][e * v:(e + 1) * v]
        require(sorted(order) == list(range(n)) and sorted(vorder) == list(range(v)), f"epoch {e} uses samples {order} and {vorder}")
        total = 0.0
        want += [(Signals.EPOCH_START, (e,)), (Signals.TRAIN_EPOCH_START, (e,))]
        for i in range(0, n, c["batch"]):
            idx = order[i:i + c["batch"]]
            opt.zero_grad()
            lo = loss(ref(data["train"][0][idx]), data["train"][1][idx])
            lo.backward()
            opt.step()
            total += lo.item() * len(idx)
            want.append((Signals.TRAIN_EPOCH_BATCH_END, (len(idx), lo.item() * len(idx))))
        want += [(Signals.TRAIN_EPOCH_END, ()), (Signals.VALIDATION_EPOCH_START, (e,))]
        vt = ok = 0.0
        for i in range(0, v, c["batch"]):
            idx = vorder[i:i + c["batch"]]
            with torch.no_grad():
                out = ref(data["test"][0][idx])
            lo = loss(out, data["test"][1][idx]).item() * len(idx)
            top = out.sort(1, descending=True)[0]
            if (top[:, 0] - top[:, 1]).min() < 1e-5:
                return      # (tie)
            good = int((out.argmax(1) == data["test"][1][idx]).sum())
            vt, ok = vt + lo, ok + good
            want.append((Signals.VALIDATION_EPOCH_BATCH_END, (len(idx), good, lo)))
        want += [(Signals.VALIDATION_EPOCH_END, ()), (Signals.EPOCH_END, ())]
        if not c["direct"]:
            r = results[e]
            for k, w in (("accuracy", ok / v), ("train_loss", total / n), ("valid_loss", vt / v)):
                require(abs(r[k] - w) <= 2e-5 * max(1.0, abs(w)), f"epoch {e}: {k} is {r[k]}, expected {w}")
    if c["direct"]:
        require([s for s, _ in events] == [s for s, _ in want], f"events {[s.name for s, _ in events]}, expected {[s.name for s, _ in want]}")
        for (s, a), (_, b) in zip(events, want):
            require(len(a) == len(b) and all(abs(p - q) <= 2e-5 * max(1.0, abs(q)) for p, q in zip(a, b)), f"event {s.name}{a}, expected {b}")
    for i, (m, r) in enumerate(zip(x.model, ref)):
        if isinstance(r, nn.Linear):
            w, b = m.get_weights()
            close(w, r.weight, f"weights of layer {i} after the training", 1e-4, 2e-5)
            if b is not None:
                close(b, r.bias, f"bias of layer {i} after the training", 1e-4, 2e-5)
    rec.hit(True)
    rec.label("direct" if c["direct"] else "runner")


@st.composite
def infer_cases(draw):
    return {"v": draw(st.integers(1, 9)), "batch": draw(st.integers(1, 5)), "repeats": draw(st.integers(1, 3)), "time": draw(st.sampled_from([1, 25, 3600, 86400, 10 ** 7])), "max": draw(st.sampled_from([0, 0, 1, 3])),
            "nu": draw(st.sampled_from([0.0, 0.05, 0.2])), "noise": draw(st.sampled_from([0.0, 0.0, 1.0])), "comp": draw(st.booleans()), "loss": draw(st.sampled_from(["nll", "ce"])), "hidden": draw(st.integers(1, 5)),
            "act": draw(st.sampled_from(["ReLU", "Tanh"])), "seed": draw(gen.seeds), "bias": draw(st.booleans()), "file": draw(st.booleans()), "remap": draw(st.booleans())}


def check_infer(c, rec):
    def trained():
        """The configuration the template was trained with, which is not the one of the experiment."""
        q = InferenceRPUConfig()
        q.forward.is_perfect = True
        q.mapping.weight_scaling_omega = 0.3
        q.noise_model = StateIndependentNoiseModel(prog_noise_scale=0.0, read_noise_scale=0.0, drift_nu_mean=0.5, drift_nu_std=0.0)
        q.drift_compensation = None if c["comp"] else GlobalDriftCompensation()
        return q

    def q():
        q = InferenceRPUConfig()
        q.forward.is_perfect = True
        q.mapping.weight_scaling_omega = 1.0
        q.noise_model = StateIndependentNoiseModel(prog_noise_scale=c["noise"], read_noise_scale=c["noise"], drift_nu_mean=c["nu"], drift_nu_std=0.1 * c["noise"])
        q.drift_compensation = GlobalDriftCompensation() if c["comp"] else None
        return q
    torch.manual_seed(c["seed"])
    Set, data, log = dataset_class(2, c["v"], 3, 3, c["seed"])
    model = classifier(c, q, c["loss"])
    v = min(c["max"], c["v"]) if c["max"] else c["v"]
    if v < c["max"]:
        return
    ref = copy.deepcopy(model)
    source, more, tmp = model, {}, None
    if c.get("file"):
        source = classifier(c, trained, c["loss"])
        tmp = tempfile.TemporaryDirectory()
        more = {"weight_template_id": tmp.name + "/template.pth", "remap_weights": c["remap"]}
        torch.save(source.state_dict(), more["weight_template_id"])
        ref.load_state_dict(source.state_dict(), load_rpu_config=False)
        if c["remap"]:
            ref.remap_analog_weights()
        rec.label("template")
    W = [tuple(None if p is None else p.clone() for p in m.get_weights()) for m in source if isinstance(m, AnalogLinear)]
    x = BasicInferencing(Set, model, c["batch"], LOSSES[c["loss"]], inference_repeats=c["repeats"], inference_time=c["time"], **more)
    torch.manual_seed(c["seed"] + 1)
    with quiet(), tmp or contextlib.nullcontext():
        results = InferenceLocalRunner().run(x, max_elements=c["max"], dataset_root="/nowhere")["inference_runs"]
    ts = [0.0] + [10 ** (np.log10(c["time"]) * i / 8) for i in range(9)]
    require(results["inference_repeat"] == c["repeats"] and not results["is_partial"] and len(results["inference_results"]) == 10, f"results {results}")
    require(log["test"] == list(range(v)) * (10 * c["repeats"]), "the validation data are not used in their order, once for every time")
    loss = LOSSES[c["loss"]]()
    acc, los = np.zeros((c["repeats"], 10)), np.zeros((c["repeats"], 10))
    torch.manual_seed(c["seed"] + 1)
    X, Y = data["test"][0][:v], data["test"][1][:v]
    tie = False
    for r in range(c["repeats"]):
        if c["noise"]:
            ref.eval()
            ref.program_analog_weights()
        for k, t in enumerate(ts):
            with torch.no_grad():
                if c["noise"]:
                    ref.drift_analog_weights(t)
                    iter(torch.utils.data.DataLoader(Set("", train=False)))      # (draws a seed)
                    out = ref(X)
                else:
                    # relative to the reference time, drift is a power law
                    f = 1.0 if c["comp"] or t == 0 else ((t + 20.0) / 20.0) ** -c["nu"]
                    out, i = X, 0
                    for m in ref:
                        if isinstance(m, AnalogLinear):
                            w, b = W[i]
                            i += 1
                            out = out @ (w * f).T + (0 if b is None else b)
                        else:
                            out = m(out)
                los[r, k] = loss(out, Y).item()
                top = out.sort(1, descending=True)[0]
                tie |= bool((top[:, 0] - top[:, 1]).min() < 1e-4)
                acc[r, k] = float((out.argmax(1) == Y).sum()) / v * 100
    for k, row in enumerate(results["inference_results"]):
        require(abs(row["t_inference"] - ts[k]) <= 1e-6 * ts[k] + 1e-9, f"time {k} is {row['t_inference']}, expected {ts[k]}")
        require(abs(row["avg_loss"] - los[:, k].mean()) <= 2e-3 * max(1.0, los[:, k].mean()), f"time {k}: loss {row['avg_loss']}, expected {los[:, k].mean()}")
        if not tie:
            for key, w in (("avg_accuracy", acc[:, k].mean()), ("std_accuracy", acc[:, k].std()), ("avg_error", 100 - acc[:, k].mean())):
                require(abs(row[key] - w) < 1e-4, f"time {k}: {key} is {row[key]}, expected {w}")
    rec.hit(True)
    rec.label("noise" if c["noise"] else "drift")


LOSSY = {"e": {"t": "train", "data": "f", "net": [{"k": "ReLU", "a": {}}], "batch": 2, "loss": "nll", "epochs": 1, "lr": 0.1}, "bad": None, "lossy": True}
C2 = {"in_channels": 2, "out_channels": 3, "kernel_size": [2, 3], "stride": [3, 2], "padding": [1, 2], "dilation": [2, 3], "bias": False}
EVERY = [("Conv2d", C2), ("ConvTranspose2d", dict(C2, output_padding=[1, 0])), ("Linear", {"in_features": 2, "out_features": 3, "bias": False}), ("BatchNorm2d", {"num_features": 4}), ("Flatten", {}),
         ("MaxPool2d", {"kernel_size": 4, "stride": 3, "padding": 1, "dilation": 2, "ceil_mode": True}), ("LeakyReLU", {"negative_slope": 0.2}), ("LogSigmoid", {}), ("LogSoftmax", {"dim": 2}),
         ("ReLU", {}), ("Sigmoid", {}), ("Softmax", {"dim": 2}), ("Tanh", {}), ("AnalogLinear", {"in_features": 2, "out_features": 3, "bias": False}), ("AnalogConv2d", C2)]
# every layer once, with options that are not the defaults; every preset once
EXPLICIT = [LOSSY] + [{"e": dict(LOSSY["e"], net=[{"k": k, "a": a, "q": PRESETS[0], "omega": 0.6}], loss=sorted(LOSSES)[i % len(LOSSES)]), "bad": None, "lossy": False} for i, (k, a) in enumerate(EVERY)]
EXPLICIT += [{"e": dict(LOSSY["e"], net=[{"k": "AnalogLinear", "a": {"in_features": 2, "out_features": 3, "bias": True}, "q": q, "omega": None}]), "bad": None, "lossy": False} for q in PRESETS]
LANES = [Lane("convert", convert_cases(), check_convert, quick=1200, thorough=20000, explicit=EXPLICIT), Lane("cloud", cloud_cases(), check_cloud, quick=250, thorough=8000),
         Lane("train", train_cases(), check_train, quick=250, thorough=8000), Lane("infer", infer_cases(), check_infer, quick=200, thorough=6000)]
