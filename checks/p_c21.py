"""C21: the training loop: steps, batches, validation, metrics, callbacks, learning rates, stopping and checkpoints."""
import contextlib
import io
import itertools
import logging
import math
import shutil
import tempfile
from pathlib import Path

import torch

from symq.runner import obligation

P = "C21"
LR = 0.25


class Line(torch.nn.Module):
    """The smallest model with two parameters: w x + b."""

    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor([0.5], dtype=torch.float64))
        self.b = torch.nn.Parameter(torch.tensor([0.1], dtype=torch.float64))
        self.seen = []

    def forward(self, x):
        self.seen.append((self.training, torch.is_grad_enabled(), tuple(x.shape)))
        return self.w * x + self.b


class Writer:
    """A stand-in for the tracking tool: records what it is given."""

    def __init__(self):
        self.log = []

    def open(self, config, iteration=None):
        self.log.append(("open", iteration))

    def close(self):
        self.log.append(("close",))

    def write(self, iteration, metrics):
        self.log.append(("write", iteration, dict(metrics)))

    def print_metrics(self, result):
        self.log.append(("print", result.iteration))

    def plot(self, model, iteration, functions):
        self.log.append(("plot", iteration))

    def log_hyperparams(self, hyperparams):
        self.log.append(("hyper", dict(hyperparams)))

    def log_model(self, *a, **k):
        self.log.append(("model",))


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c21-")
    lv = logging.getLogger("ml_tools").level
    logging.getLogger("ml_tools").setLevel(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(io.StringIO()):  # progress bars
            yield Path(d)
    finally:
        logging.getLogger("ml_tools").setLevel(lv)
        shutil.rmtree(d, ignore_errors=True)


def config(folder, **kw):
    from qadence.ml_tools import TrainConfig

    return TrainConfig(**{"root_folder": folder, "log_folder": folder, "verbose": False, "max_iter": 1, **kw})


def trainer(model, opt, cfg, **kw):
    from qadence.ml_tools import Trainer

    Trainer.set_use_grad(True)
    t = Trainer(model, opt, cfg, **kw)
    t.callback_manager.writer = Writer()
    return t


def sgd(m, momentum=0.0, lr=LR):
    return torch.optim.SGD(m.parameters(), lr=lr, momentum=momentum, foreach=False)


def line(s):
    m = Line()
    return m, s.bind(m.w, "w", -2, 2).clone(), s.bind(m.b, "b", -2, 2).clone()


def data(s, n, pre=""):
    return s.real(pre + "x", (n, 1), -2, 2), s.real(pre + "y", (n, 1), -2, 2)


def mse(w, b, x, y):
    return ((w * x + b - y) ** 2).sum() / x.numel()


def step(w, b, x, y, lr=LR, mom=None):
    """One step of gradient descent (with momentum 0.5 when `mom` is given) on the mean squared error."""
    r = w * x + b - y
    gw, gb = (2 * r * x).sum().reshape(1) / x.numel(), (2 * r).sum().reshape(1) / x.numel()
    if mom is None:
        return w - lr * gw, b - lr * gb
    mom[:] = [0.5 * mom[0] + gw, 0.5 * mom[1] + gb] if mom else [gw, gb]
    return w - lr * mom[0], b - lr * mom[1]


def loader(x, y, bs, infinite=False):
    from qadence.ml_tools import to_dataloader

    return to_dataloader(x, y, batch_size=bs, infinite=infinite)


def params(s, m, w, b, what):
    s.eq(m.w.detach(), w, f"{what}: w")
    s.eq(m.b.detach(), b, f"{what}: b")


# ------------------------------------------------------------------------------------------------ steps
CASES = [(1, 1, None, 2), (2, 1, None, 1), (3, 2, None, 0), (4, 2, 1, 1), (3, 1, 2, 0), (2, 5, None, 1), (2, 2, 7, 0)]
for n, bs, cap, epochs in CASES:
    @obligation(P, f"fit-{n}-{bs}-{cap}-{epochs}", allow_pins=True)
    def ob(s, n=n, bs=bs, cap=cap, epochs=epochs):
        """A fit performs one plain optimiser step per batch, over all batches (up to the stated maximum) of max_iter + 1 epochs, and nothing else moves the parameters."""
        with scratch() as d:
            m, w, b = line(s)
            x, y = data(s, n)
            o = sgd(m)
            t = trainer(m, o, config(d, max_iter=epochs), max_batches=cap, train_dataloader=loader(x, y, bs))
            seen = []
            t.on_train_batch_end = lambda lm: seen.append(lm)
            mm, oo = t.fit()
            s.fact(mm is m and oo is o, "the trained model and its optimiser come back")
            chunks = [slice(i, min(i + bs, n)) for i in range(0, n, bs)][:cap]
            k = 0
            for _ in range(epochs + 1):
                for c in chunks:
                    if k < len(seen):
                        L = mse(w, b, x[c], y[c])
                        s.eq(seen[k][0], L, f"loss of batch {k}")
                        s.fact(set(seen[k][1]) == {"train_mse", "train_loss"}, "names of the training metrics")
                        for nm in ("train_mse", "train_loss"):
                            s.eq(seen[k][1][nm], L, f"{nm} of batch {k}")
                        s.fact(not seen[k][0].requires_grad, "reported losses are detached")
                    w, b = step(w, b, x[c], y[c])
                    k += 1
            s.fact(len(seen) == k, f"number of training batches: {len(seen)}, expected {k}", "batches")
            s.fact(len(m.seen) == k and all(q[0] and q[1] for q in m.seen), "the model is in training mode, with gradients")
            params(s, m, w, b, "after the fit")


@obligation(P, "fit-infinite", allow_pins=True)
def ob(s):
    """With an infinite data set every epoch uses one batch."""
    with scratch() as d:
        m, w, b = line(s)
        x, y = data(s, 2)
        t = trainer(m, sgd(m), config(d, max_iter=1), train_dataloader=loader(x, y, 2, True))
        t.fit()
        for _ in range(2):
            w, b = step(w, b, x, y)
        params(s, m, w, b, "after the fit")
        s.fact(len(m.seen) == 2, "one batch per epoch")


@obligation(P, "fit-no-data", allow_pins=True)
def ob(s):
    """Without data the loss function is called with None, once per epoch; a dictionary of loaders delivers dictionaries of batches."""
    from qadence.ml_tools.data import DictDataLoader, to_dataloader

    with scratch() as d:
        m, w, b = line(s)
        got = []

        def loss(model, batch):
            got.append(batch)
            return (model.w * model.b).sum(), {}

        trainer(m, sgd(m), config(d / "a", max_iter=2), loss_fn=loss).fit()
        s.fact(got == [None] * 3, "called with None once per epoch")
        for _ in range(3):
            w, b = w - LR * b, b - LR * w
        params(s, m, w, b, "no data")

        m, w, b = line(s)
        x, y = data(s, 3)

        def loss2(model, batch):
            s.fact(set(batch) == {"u", "v"}, "keys of the dictionary")
            (xx,), (yy,) = batch["u"], batch["v"]
            return ((model.w * xx + model.b - yy) ** 2).mean(), {}

        dl = DictDataLoader({"u": to_dataloader(x, batch_size=2), "v": to_dataloader(y, batch_size=2)})
        trainer(m, sgd(m), config(d / "b", max_iter=0), loss_fn=loss2, train_dataloader=dl).fit()
        for c in (slice(0, 2), slice(2, 3)):
            w, b = step(w, b, x[c], y[c])
        params(s, m, w, b, "dictionary")


@obligation(P, "fit-loaders-and-repeats", allow_pins=True)
def ob(s):
    """Loaders given to fit replace those of the trainer; a second fit goes on from where the first stopped; losses by name and by function."""
    from qadence.ml_tools.loss.loss import get_loss_fn, mse_loss

    with scratch() as d:
        m, w, b = line(s)
        x, y = data(s, 1)
        x2, y2 = data(s, 2, "o")
        t = trainer(m, sgd(m), config(d, max_iter=0), train_dataloader=loader(x, y, 1))
        t.fit()
        w, b = step(w, b, x, y)
        params(s, m, w, b, "first")
        t.fit(train_dataloader=loader(x2, y2, 1))
        for c in (slice(0, 1), slice(1, 2)):
            w, b = step(w, b, x2[c], y2[c])
        params(s, m, w, b, "second")
        t.fit()
        for c in (slice(0, 1), slice(1, 2)):
            w, b = step(w, b, x2[c], y2[c])
        params(s, m, w, b, "third")
        s.fact(get_loss_fn("mse") is mse_loss and get_loss_fn(None) is mse_loss and get_loss_fn(mse_loss) is mse_loss, "losses by name")
        s.raises(lambda: get_loss_fn("nope"), ValueError, "unknown loss")


# ------------------------------------------------------------------------------------------------ validation and test
for every, epochs, n, bs in ((1, 2, 1, 1), (2, 3, 2, 1), (3, 3, 3, 2)):
    @obligation(P, f"validation-{every}-{epochs}-{n}-{bs}", allow_pins=True)
    def ob(s, every=every, epochs=epochs, n=n, bs=bs):
        """Validation runs once before training and after every val_every-th epoch, on the validation data, with the parameters of that moment, without gradients and without changing them."""
        with scratch() as d:
            m, w, b = line(s)
            x, y = data(s, 1)
            vx, vy = data(s, n, "v")
            t = trainer(m, sgd(m), config(d, max_iter=epochs, val_every=every), train_dataloader=loader(x, y, 1), val_dataloader=loader(vx, vy, bs))
            got, ends = [], {}
            t.on_val_batch_end = lambda lm: got.append(lm)
            t.on_val_epoch_end = lambda lm: ends.__setitem__("v", ends.get("v", []) + [lm])
            t.on_train_end = lambda tr, va=None: ends.__setitem__("t", (tr, va))
            t.fit()
            chunks = [slice(i, min(i + bs, n)) for i in range(0, n, bs)]
            want = [[mse(w, b, vx[c], vy[c]) for c in chunks]]
            train = []
            for e in range(epochs + 1):
                train.append(mse(w, b, x, y))
                w, b = step(w, b, x, y)
                if e % every == 0:
                    want.append([mse(w, b, vx[c], vy[c]) for c in chunks])
            flat = [v for r in want for v in r]
            s.fact(len(got) == len(flat), f"number of validation batches: {len(got)}, expected {len(flat)}", "validation batches")
            for k, (g, v) in enumerate(zip(got, flat)):
                s.eq(g[0], v, f"validation loss {k}")
                s.fact(set(g[1]) == {"val_mse", "val_loss"}, "names of the validation metrics")
                s.eq(g[1]["val_mse"], v, f"validation metric {k}")
            s.fact(len(ends["v"]) == len(want) - 1, "validation epochs during training")
            tr, va = ends["t"]
            s.fact([len(r) for r in tr] == [1] * (epochs + 1), "training losses of every epoch")
            for e, r in enumerate(tr):
                s.eq(r[0][0], train[e], f"training loss of epoch {e}")
            for k, r in enumerate(va):
                for j, q in enumerate(r):
                    s.eq(q[0], want[k + 1][j], f"validation loss of epoch {k} batch {j}")
            params(s, m, w, b, "after the fit")
            s.fact(sum(1 for q in m.seen if not q[0] and not q[1]) == len(flat), "validation without gradients, in evaluation mode")
            s.fact(sum(1 for q in m.seen if q[0] and q[1]) == epochs + 1, "training with gradients, in training mode")
            wr = [q for q in t.callback_manager.writer.log if q[0] == "write"]
            vals = [q for q in wr if "val_loss" in q[2]]
            for q in vals:
                # the average over the batches of the validation that precedes
                idx = 0 if q[1] == 0 else 1 + q[1] // every
                if idx < len(want):
                    s.eq(q[2]["val_loss"], sum(want[idx]) / len(want[idx]), f"written validation loss {q[1]}")
            s.fact([q[1] for q in vals if q[1]] == [e for e in range(1, epochs + 1) if e % every == 0], "validation metrics written at every validation")


@obligation(P, "test", allow_pins=True)
def ob(s):
    """Testing evaluates the loss on the test data (that of the trainer unless another is given), all batches, and changes nothing."""
    with scratch() as d:
        m, w, b = line(s)
        x, y = data(s, 1)
        tx, ty = data(s, 3, "t")
        ux, uy = data(s, 2, "u")
        mk = lambda k, **kw: trainer(m, sgd(m), config(d / k), **kw)
        for nm, kw, arg, (X, Y), bs in (
            ("own", {"test_dataloader": loader(tx, ty, 1)}, None, (tx, ty), 1),
            ("own with training data", {"test_dataloader": loader(tx, ty, 2), "train_dataloader": loader(x, y, 1)}, None, (tx, ty), 2),
            ("given", {}, loader(tx, ty, 2), (tx, ty), 2),
            ("given over own", {"test_dataloader": loader(tx, ty, 1), "train_dataloader": loader(x, y, 1)}, loader(ux, uy, 1), (ux, uy), 1),
            ("more training batches", {"test_dataloader": loader(ux, uy, 1), "train_dataloader": loader(tx, ty, 1)}, None, (ux, uy), 1),
        ):
            t = mk(nm.replace(" ", "-"), **kw)
            m.seen.clear()
            out = t.test(arg) if arg is not None else t.test()
            n = len(X)
            chunks = [slice(i, min(i + bs, n)) for i in range(0, n, bs)]
            s.fact(len(out) == len(chunks), f"{nm}: {len(out)} test batches, expected {len(chunks)}", f"{nm}: test batches")
            for k, (c, q) in enumerate(zip(chunks, out)):
                s.eq(q[0], mse(w, b, X[c], Y[c]), f"{nm}: test loss {k}")
                s.fact(set(q[1]) == {"test_mse", "test_loss"}, f"{nm}: names of the test metrics")
                s.eq(q[1]["test_mse"], mse(w, b, X[c], Y[c]), f"{nm}: test metric {k}")
            s.fact(all(not q[0] and not q[1] for q in m.seen), f"{nm}: without gradients, in evaluation mode")
            params(s, m, w, b, nm)


@obligation(P, "metrics-average", allow_pins=True)
def ob(s):
    """The result that callbacks see is the batch's own at the end of a batch and the average over the batches of the epoch at the end of an epoch, with every metric of the loss function."""
    from qadence.ml_tools.callbacks import Callback

    with scratch() as d:
        m, w, b = line(s)
        x, y = data(s, 3)
        a = s.real("a", 3, -2, 2)
        it = itertools.count()

        def loss(model, batch):
            k = next(it)
            return ((model.w * batch[0] + model.b - batch[1]) ** 2).mean(), {"aux": a[k % 3] * 1.0, "other": a[(k + 1) % 3] + 1.0}

        log = []
        cb = lambda on: Callback(on=on, callback=lambda t, c, wr: log.append((on, t.opt_result.iteration, t.opt_result.loss, dict(t.opt_result.metrics), t.current_epoch)))
        t = trainer(m, sgd(m), config(d, max_iter=1, callbacks=[cb("train_batch_end"), cb("train_epoch_end"), cb("train_end")]), loss_fn=loss, train_dataloader=loader(x, y, 1))
        t.fit()
        L = []
        for _ in range(2):
            for k in range(3):
                L.append(mse(w, b, x[k : k + 1], y[k : k + 1]))
                w, b = step(w, b, x[k : k + 1], y[k : k + 1])
        s.fact([q[0] for q in log] == ["train_batch_end"] * 3 + ["train_epoch_end", "train_end"], "calls of the callbacks", "calls")
        av = (L[3] + L[4] + L[5]) / 3
        for k, q in enumerate(log):
            s.fact(q[1] == 1 and q[4] == 1, f"{q[0]}: the iteration is the epoch")
            s.fact(set(q[3]) == {"train_aux", "train_other", "train_loss"}, f"{q[0]}: names of the metrics")
            if k < 3:
                s.eq(q[2], L[3 + k], f"batch {k}: loss")
                s.eq(q[3]["train_aux"], a[k], f"batch {k}: metric")
                s.eq(q[3]["train_other"], a[(k + 1) % 3] + 1, f"batch {k}: other metric")
            else:
                s.eq(q[2], av, f"{q[0]}: loss")
                s.eq(q[3]["train_loss"], av, f"{q[0]}: loss metric")
                s.eq(q[3]["train_aux"], a.sum() / 3, f"{q[0]}: metric")
                s.eq(q[3]["train_other"], a.sum() / 3 + 1, f"{q[0]}: other metric")


# ------------------------------------------------------------------------------------------------ callbacks
STAGES = [f"{a}_{b}" for a in ("train", "train_epoch", "train_batch", "val_epoch", "val_batch") for b in ("start", "end")]
for every in (1, 2, 3):
    @obligation(P, f"callbacks-{every}", allow_pins=True)
    def ob(s, every=every):
        """Callbacks run at their stage in every called_every-th epoch (never in epoch 0), those of start and end of training always, in the order of the stages; conditions and added results are honoured."""
        from qadence.ml_tools.callbacks import Callback

        with scratch() as d:
            m, w, b = line(s)
            x, y = data(s, 2)
            log, extra = [], []
            ends = [q for q in STAGES if q.endswith("_end") or q == "train_start"]
            cbs = [Callback(on=q, called_every=every, callback=lambda t, c, wr, q=q: log.append((q, t.current_epoch))) for q in ends]
            cbs.append(Callback(on="train_epoch_end", called_every=1, callback_condition=lambda r: r.iteration >= 2, callback=lambda t, c, wr: log.append(("cond", t.current_epoch))))
            cbs.append(Callback(on="train_epoch_end", called_every=0, callback=lambda t, c, wr: log.append(("never", t.current_epoch))))
            cbs.append(Callback(on="val_epoch_end", called_every=1, modify_optimize_result={"note": 5}, callback=lambda t, c, wr: extra.append(dict(t.opt_result.extra))))
            cfg = config(d, max_iter=4, val_every=2, callbacks=cbs)
            t = trainer(m, sgd(m), cfg, loss_fn=lambda mod, batch: ((mod.w * 1.0).sum(), {}), train_dataloader=loader(x, y, 1), val_dataloader=loader(x, y, 2))
            t.fit()
            want = [("train_start", 0)]
            for e in range(5):
                on = e and e % every == 0
                want += [("train_batch_end", e)] * 2 * bool(on)
                want += [("train_epoch_end", e)] * bool(on) + [("cond", e)] * (e >= 2)
                if e % 2 == 0:
                    want += [("val_batch_end", e)] * bool(on) + [("val_epoch_end", e)] * bool(on)
            want.append(("train_end", 4))
            s.fact(log == want, f"calls {log}, expected {want}", "order of the calls")
            s.fact(extra == [{"note": 5}] * 2, "added results")
            params(s, m, w - 10 * LR, b, "after the fit")
            s.fact(len(cfg.callbacks) == len(cbs), "the configuration keeps its own callbacks")
            s.raises(lambda: Callback(on="no_such_stage"), ValueError, "unknown stage")
            s.raises(lambda: Callback(on="train_end", called_every=1.5), ValueError, "fractional interval")


@obligation(P, "writing", allow_pins=True)
def ob(s):
    """Metrics are written, printed and plotted at the intervals of the configuration and at the end of training, with the values of that epoch."""
    with scratch() as d:
        m, w, b = line(s)
        x, y = data(s, 1)
        cfg = config(d, max_iter=4, write_every=2, plot_every=3, print_every=4, verbose=True, hyperparams={"h": 1.5})
        t = trainer(m, sgd(m), cfg, train_dataloader=loader(x, y, 1), loss_fn=lambda mod, batch: ((mod.w * mod.w + mod.b).sum(), {"m": 2 * mod.b.sum()}))
        t.fit()
        vals = []
        for _ in range(5):
            vals.append(((w * w + b).sum(), 2 * b.sum()))
            w, b = w - LR * 2 * w, b - LR
        log = t.callback_manager.writer.log
        s.fact([(q[0], q[1]) for q in log if q[0] == "write"] == [("write", 2), ("write", 4), ("write", 4)], "what is written when")
        s.fact([q[1] for q in log if q[0] == "plot"] == [0, 3, 4], "what is plotted when")
        s.fact([q[1] for q in log if q[0] == "print"] == [4], "what is printed when")
        s.fact([q for q in log if q[0] == "hyper"] == [("hyper", {"h": 1.5})], "hyperparameters")
        s.fact(log[0] == ("open", 0) and log[-1] == ("close",), "opened first, closed last")
        for k, q in enumerate(q for q in log if q[0] == "write"):
            L, a = vals[q[1]]
            s.fact(set(q[2]) == {"train_m", "train_loss"}, "names of what is written")
            s.eq(q[2]["train_loss"], L, f"written loss {k}")
            s.eq(q[2]["train_m"], a, f"written metric {k}")


@obligation(P, "gradient-monitoring", allow_pins=True)
def ob(s):
    """The monitored gradients are those of the step of that epoch."""
    from qadence.ml_tools.callbacks import GradientMonitoring

    with scratch() as d:
        m, w, b = line(s)
        t = trainer(m, sgd(m), config(d, max_iter=2, callbacks=[GradientMonitoring(on="train_batch_end", called_every=2)]), loss_fn=lambda mod, batch: ((mod.w * 3 + mod.b * 2).sum(), {}))
        t.fit()
        log = [q for q in t.callback_manager.writer.log if q[0] == "write"]
        s.fact([q[1] for q in log] == [2], "when")
        for k, v in (("w_mean", 3.0), ("w_max", 3.0), ("w_min", 3.0), ("b_mean", 2.0), ("b_max", 2.0)):
            s.fact(abs(log[0][2][k] - v) < 1e-12, f"{k}")


# ------------------------------------------------------------------------------------------------ learning rates
def rates(s, d, cb, lr0, epochs, groups=1):
    """The learning rate after every epoch, under a callback, with steps that do nothing."""
    from qadence.ml_tools.callbacks import Callback

    m = Line()
    ps = [[m.w], [m.b]] if groups == 2 else [[m.w, m.b]]
    o = torch.optim.SGD([{"params": p, "lr": 0.1} for p in ps], foreach=False)
    for g, l in zip(o.param_groups, lr0):
        g["lr"] = l
    out = []

    def nothing(model, optimizer, loss_fn, xs, device=None, dtype=None):
        out.append([g["lr"] for g in optimizer.param_groups])
        return torch.zeros((), dtype=torch.float64), {}

    t = trainer(m, o, config(d, max_iter=epochs, callbacks=[cb]), optimize_step=nothing)
    t.fit()
    return out + [[g["lr"] for g in o.param_groups]]


def T(v):
    return torch.as_tensor(v, dtype=torch.float64)


for every in (1, 2):
    @obligation(P, f"lr-step-{every}")
    def ob(s, every=every):
        """Step decay multiplies the learning rate of every group by gamma at every call."""
        from qadence.ml_tools.callbacks import LRSchedulerStepDecay

        l0, l1, g = s.real("lr0", (), 0.01, 1), s.real("lr1", (), 0.01, 1), s.real("gamma", (), 0.1, 1)
        a0, a1 = l0.clone(), l1.clone()
        with scratch() as d:
            got = rates(s, d, LRSchedulerStepDecay(on="train_epoch_end", called_every=every, gamma=g), [lambda: l0, lambda: l1] and [l0, l1], 4, 2)
        for k, v in ((0, a0), (1, a1)):
            s.eq(T(got[-1][k]), v * g ** (4 // every), f"final rate of group {k}")

    @obligation(P, f"lr-cyclic-{every}")
    def ob(s, every=every):
        """The cyclic schedule is the triangular wave between base_lr and max_lr with half period step_size."""
        from qadence.ml_tools.callbacks import LRSchedulerCyclic

        lo, hi = s.real("lo", (), 0.01, 1), s.real("hi", (), 0.01, 1)
        for size in (1, 2, 3):
            with scratch() as d:
                got = rates(s, d, LRSchedulerCyclic(on="train_epoch_end", called_every=every, base_lr=lo, max_lr=hi, step_size=size), [0.5], 8)
            cur = T(0.5)
            for e in range(9):
                s.eq(T(got[e][0]), cur, f"size {size}: rate used in epoch {e}")
                if e and e % every == 0:
                    ph = e % (2 * size)
                    cur = lo + (hi - lo) * (min(ph, 2 * size - ph) / size)

    @obligation(P, f"lr-cosine-{every}")
    def ob(s, every=every):
        """Cosine annealing goes from the initial learning rate along the cosine curve down to min_lr."""
        from qadence.ml_tools.callbacks import LRSchedulerCosineAnnealing

        l0, l1, lo = s.real("lr0", (), 0.01, 1), s.real("lr1", (), 0.01, 1), s.real("min", (), 0.0, 0.01)
        a = [l0.clone(), l1.clone()]
        with scratch() as d:
            got = rates(s, d, LRSchedulerCosineAnnealing(on="train_epoch_end", called_every=every, t_max=4, min_lr=lo), [l0, l1], 4, 2)
        for k in (0, 1):
            cur = a[k]
            for e in range(6):
                s.eq(T(got[e][k]), cur, f"group {k}: rate used in epoch {e}")
                if e and e % every == 0:
                    cur = lo + (a[k] - lo) * ((1 + math.cos(math.pi * e / 4)) / 2)


# ------------------------------------------------------------------------------------------------ stopping
for mode in ("min", "max"):
    for patience in (1, 2, 3):
        @obligation(P, f"early-stopping-{mode}-{patience}", max_paths=80, allow_pins=True)
        def ob(s, mode=mode, patience=patience):
            """Training stops after the epoch in which the monitored metric has not improved on its best value for `patience` epochs in a row, for every sequence of values; never before."""
            from qadence.ml_tools.callbacks import EarlyStopping

            N = 4
            v = s.real("v", N + 1, -3, 3)
            it = itertools.count()

            def nothing(model, optimizer, loss_fn, xs, device=None, dtype=None):
                return torch.zeros((), dtype=torch.float64), {"score": v[next(it)]}

            m = Line()
            with scratch() as d:
                cb = EarlyStopping(on="train_epoch_end", called_every=1, monitor="train_score", patience=patience, mode=mode)
                trainer(m, sgd(m), config(d, max_iter=N, callbacks=[cb]), optimize_step=nothing).fit()
            ran = next(it)
            best, bad, want = None, 0, N + 1
            for e in range(1, N + 1):
                better = best is None or bool((v[e] < best) if mode == "min" else (v[e] > best))
                best, bad = (v[e], 0) if better else (best, bad + 1)
                if bad >= patience:
                    want = e + 1
                    break
            s.fact(ran == want, f"{ran} epochs, expected {want}", "number of epochs")


@obligation(P, "early-stopping-validation", max_paths=40, allow_pins=True)
def ob(s):
    """Early stopping on the validation loss; an unknown metric is an error."""
    from qadence.ml_tools.callbacks import EarlyStopping

    v = s.real("v", 4, -3, 3)
    k = itertools.count()
    ep = itertools.count()

    def loss(model, batch):
        if torch.is_grad_enabled():
            next(ep)
            return (model.w * 0).sum(), {}
        return v[next(k)] * 1.0, {}

    m = Line()
    x = torch.zeros(1, 1, dtype=torch.float64)
    with scratch() as d:
        cb = EarlyStopping(on="val_epoch_end", called_every=1, monitor="val_loss", patience=1)
        trainer(m, sgd(m), config(d / "a", max_iter=2, val_every=1, callbacks=[cb]), loss_fn=loss, train_dataloader=loader(x, x, 1), val_dataloader=loader(x, x, 1)).fit()
        ran = next(ep)
        # v[0]: before training, v[1]: epoch 0 (no callbacks), v[2]: epoch 1, v[3]: epoch 2
        s.fact(ran == 3, "three epochs: the first monitored value is always an improvement")
        bad = EarlyStopping(on="train_epoch_end", called_every=1, monitor="nope")
        s.raises(lambda: trainer(m, sgd(m), config(d / "b", max_iter=2, callbacks=[bad]), loss_fn=lambda mod, q: ((mod.w * 0).sum(), {})).fit(), ValueError, "unknown metric")


# ------------------------------------------------------------------------------------------------ checkpoints
def quantum(s, pre=""):
    """A model with two trainable parameters whose output is a polynomial-free function: cos of their sum."""
    import qadence as qd

    b = qd.chain(qd.RX(0, qd.VariationalParameter("u", value=0.3)), qd.RX(0, qd.VariationalParameter("v", value=0.4)))
    m = qd.QuantumModel(qd.QuantumCircuit(1, b), qd.Z(0))
    return m


def named(m):
    return {n.split(".")[-1]: p for n, p in m.named_parameters()}


@obligation(P, "checkpoint-roundtrip")
def ob(s):
    """A written checkpoint restores exactly the parameters of the model, the state of the optimiser and the iteration, for plain and quantum models."""
    from qadence.ml_tools.callbacks.saveload import load_checkpoint, write_checkpoint

    with scratch() as d:
        for it in (0, 7, 123, 1000, 123456):
            f = d / str(it)
            f.mkdir()
            m, w, b = line(s)
            o = sgd(m, 0.5)
            mw, mb = s.real(f"mw{it}", 1), s.real(f"mb{it}", 1)
            o.state[m.w]["momentum_buffer"] = mw.clone()
            o.state[m.b]["momentum_buffer"] = mb.clone()
            write_checkpoint(f, m, o, it)
            m2 = Line()
            o2 = sgd(m2, 0.5, lr=0.9)
            m3, o3, k = load_checkpoint(f, m2, o2)
            s.fact(m3 is m2 and k == it, f"iteration {k}, expected {it}", "iteration")
            params(s, m3, w, b, f"checkpoint {it}")
            s.eq(o3.state[m2.w]["momentum_buffer"], mw, "optimiser state w")
            s.eq(o3.state[m2.b]["momentum_buffer"], mb, "optimiser state b")
            s.fact(o3.param_groups[0]["lr"] == LR, "learning rate")
            params(s, m, w, b, f"the saved model {it}")
        m = quantum(s)
        e = {k: s.bind(p, k) for k, p in named(m).items() if p.requires_grad}
        f = d / "q"
        f.mkdir()
        o = sgd(m)
        write_checkpoint(f, m, o, 4)
        m2 = quantum(s)
        m2, o2, k = load_checkpoint(f, m2, sgd(m2))
        s.fact(k == 4, "iteration")
        for q, v in e.items():
            s.eq(named(m2)[q].detach(), v, f"quantum model: {q}")
        s.eq(m2.expectation({}).reshape(-1), torch.cos(e["u"] + e["v"]), "expectation of the reloaded model")
        # nothing to load: everything stays
        m, w, b = line(s)
        mm, oo, k = load_checkpoint(d / "new", m, sgd(m))
        s.fact(k == 0 and mm is m and (d / "new").exists(), "no checkpoints yet")
        params(s, m, w, b, "no checkpoints yet")


@obligation(P, "checkpoint-latest")
def ob(s):
    """Of several checkpoints the one with the highest iteration is loaded, for model and optimiser alike, however many digits the iteration has."""
    from qadence.ml_tools.callbacks.saveload import load_checkpoint, write_checkpoint

    with scratch() as d:
        for name, its in (("a", (0, 2, 10)), ("b", (10, 2, 9)), ("c", (999, 1000, 2)), ("d", (5, 100000, 99999)), ("e", (1, "best")), ("f", (3,))):
            f = d / name
            f.mkdir()
            vals = {}
            for it in its:
                m, w, b = line(s)
                vals[it] = (s.bind(m.w, f"w{name}{it}"), s.bind(m.b, f"b{name}{it}"))
                o = sgd(m, 0.5, lr=0.01 * (1 + its.index(it)))
                write_checkpoint(f, m, o, it)
            top = max(i for i in its if isinstance(i, int))
            m = Line()
            m, o, k = load_checkpoint(f, m, sgd(m, 0.5))
            s.fact(k == top, f"{name}: loaded {k}, expected {top}", f"{name}: iteration")
            params(s, m, *vals[top], name)
            s.fact(abs(o.param_groups[0]["lr"] - 0.01 * (1 + its.index(top))) < 1e-12, f"{name}: the optimiser of the same iteration")


@obligation(P, "checkpoint-schedule", allow_pins=True)
def ob(s):
    """Checkpoints are written every checkpoint_every-th epoch and at the end, each with the parameters of its epoch."""
    with scratch() as d:
        m, w, b = line(s)
        x, y = data(s, 1)
        t = trainer(m, sgd(m), config(d, max_iter=3, checkpoint_every=2), train_dataloader=loader(x, y, 1))
        t.fit()
        want = {}
        for e in range(4):
            w, b = step(w, b, x, y)
            want[e] = (w, b)
        files = sorted(f.name for f in d.iterdir() if f.name.startswith("model"))
        got = {}
        for f in files:
            it, sd = torch.load(d / f, weights_only=False)
            got[it] = sd
        s.fact(sorted(got) == [2, 3], f"checkpoints {sorted(got)}, expected [2, 3]", "which checkpoints")
        for it, sd in got.items():
            s.eq(sd["w"], want[it][0], f"checkpoint {it}: w")
            s.eq(sd["b"], want[it][1], f"checkpoint {it}: b")
        s.fact(sum(f.name.startswith("opt") for f in d.iterdir()) == len(files), "an optimiser for every model")


for momentum in (0.0, 0.5):
    @obligation(P, f"resume-{momentum}", allow_pins=True)
    def ob(s, momentum=momentum):
        """A new trainer on the same folder goes on from the last checkpoint: parameters, optimiser state and iteration; interrupted and uninterrupted training agree."""
        with scratch() as d:
            m, w, b = line(s)
            x, y = data(s, 1)
            mom = [] if momentum else None
            trainer(m, sgd(m, momentum), config(d, max_iter=1, checkpoint_every=1), train_dataloader=loader(x, y, 1)).fit()
            for _ in range(2):
                w, b = step(w, b, x, y, mom=mom)
            params(s, m, w, b, "first part")
            m2 = Line()
            eps = []
            t = trainer(m2, sgd(m2, momentum), config(d, max_iter=0, checkpoint_every=1), train_dataloader=loader(x, y, 1))
            t.on_train_epoch_start = lambda: eps.append(t.current_epoch)
            t.fit()
            w, b = step(w, b, x, y, mom=mom)
            params(s, m2, w, b, "resumed")
            s.fact(eps == [1], f"epochs {eps} after resuming from the checkpoint of epoch 1", "epochs")
            s.fact(t.global_step == 1, "step")
            # a fresh subfolder starts afresh
            m3 = Line()
            w3, b3 = s.bind(m3.w, "w3", -2, 2).clone(), s.bind(m3.b, "b3", -2, 2).clone()
            trainer(m3, sgd(m3), config(d, max_iter=0, create_subfolder_per_run=True), train_dataloader=loader(x, y, 1)).fit()
            params(s, m3, *step(w3, b3, x, y), "new subfolder")


@obligation(P, "resume-quantum", allow_pins=True)
def ob(s):
    """The same for a quantum model."""
    with scratch() as d:
        m = quantum(s)
        e = {k: s.bind(p, k, -2, 2).clone() for k, p in named(m).items() if p.requires_grad}
        loss = lambda mod, batch: (mod.expectation({}).sum(), {})
        trainer(m, sgd(m), config(d, max_iter=0, checkpoint_every=1, val_every=0), loss_fn=loss).fit()
        g = -torch.sin(e["u"] + e["v"])
        e1 = {k: v - LR * g for k, v in e.items()}
        for k in e:
            s.eq(named(m)[k].detach(), e1[k], f"first step of {k}")
        from qadence.ml_tools.callbacks.saveload import load_checkpoint

        m2 = quantum(s)
        load_checkpoint(d, m2, sgd(m2))
        for k in e:
            s.eq(named(m2)[k].detach(), e1[k], f"reloaded {k}")


@obligation(P, "best-checkpoint", max_paths=40, allow_pins=True)
def ob(s):
    """With checkpoint_best_only the only checkpoint is that of the best validation loss so far, for every sequence of losses."""
    with scratch() as d:
        v = s.real("v", 5, -3, 3)
        m = Line()
        k = itertools.count()
        w0 = s.bind(m.w, "w", -2, 2).clone()

        def loss(model, batch):
            if torch.is_grad_enabled():
                return model.w.sum() + 0 * model.b.sum(), {}
            return v[next(k)] * 1.0, {}

        x = torch.zeros(1, 1, dtype=torch.float64)
        cfg = config(d, max_iter=3, val_every=1, checkpoint_every=1, checkpoint_best_only=True, val_epsilon=0.1, validation_criterion=lambda cur, best, eps: cur <= best - eps)
        trainer(m, sgd(m), cfg, loss_fn=loss, train_dataloader=loader(x, x, 1), val_dataloader=loader(x, x, 1)).fit()
        best, at = None, None
        for e in range(1, 4):
            if best is None or bool(v[e + 1] <= best - 0.1):
                best, at = v[e + 1], e
        files = sorted(f.name for f in d.iterdir() if f.name.startswith("model"))
        s.fact(len(files) == 1 and "best" in files[0], f"one checkpoint: {files}", "files")
        if files:
            it, sd = torch.load(d / files[0], weights_only=False)
            s.eq(sd["w"], w0 - LR * (at + 1), "parameters of the best epoch")


# ------------------------------------------------------------------------------------------------ gradient-free, modes
@obligation(P, "gradient-free", allow_pins=True)
def ob(s):
    """Gradient-free training tells the optimiser the loss of exactly the candidate the model held and puts the next candidate into the model; the mode is restored afterwards."""
    import nevergrad as ng
    import numpy as np

    from qadence.ml_tools import Trainer

    class Fake(ng.optimizers.base.Optimizer):
        def __init__(self, cands):
            super().__init__(ng.p.Array(init=np.array([0.0, 0.0])), budget=5)
            self.cands, self.told = list(cands), []

        def tell(self, cand, loss):
            self.told.append((np.array(cand.value), float(loss)))

        def ask(self):
            return ng.p.Array(init=np.array(self.cands.pop(0)))

        def enable_pickling(self):
            pass

    with scratch() as d:
        m = Line()
        m.w.data.fill_(0.5)
        m.b.data.fill_(0.1)
        c = [(1.0, 2.0), (-1.5, 0.25), (3.0, -2.0)]
        x, y = data(s, 2)
        o = sgd(m)
        t = trainer(m, o, config(d, max_iter=1), train_dataloader=loader(x, y, 2))
        f = Fake(c)
        out = []
        t.on_train_batch_end = lambda q: out.append(q[0])
        with t.disable_grad_opt(f):
            s.fact(not t.use_grad, "gradient-free inside")
            t.fit()
        s.fact(t.use_grad and t.optimizer is o, "the mode and the optimiser are restored")
        pts = [(0.5, 0.1)] + c
        s.fact([tuple(q[0]) for q in f.told] == pts[:2], "the candidates told are those the model held")
        for k, q in enumerate(out):
            s.eq(q, mse(T(pts[k][0]), T(pts[k][1]), x, y), f"loss of candidate {k}")
            s.fact(abs(f.told[k][1] - float(q)) < 1e-12, f"loss told for candidate {k}")
        params(s, m, T([pts[2][0]]), T([pts[2][1]]), "after the fit")
        s.raises(lambda: Trainer(m, f, config(d)), TypeError, "a gradient-free optimiser in gradient mode")
        Trainer.set_use_grad(False)
        try:
            s.raises(lambda: Trainer(m, sgd(m), config(d)), TypeError, "a gradient optimiser in gradient-free mode")
        finally:
            Trainer.set_use_grad(True)


@obligation(P, "precision", allow_pins=True)
def ob(s):
    """The data type of the configuration is that of the batches and of the model."""
    with scratch() as d:
        m, w, b = line(s)
        x, y = data(s, 1)
        kinds = []

        def loss(model, batch):
            kinds.append((batch[0].dtype, batch[1].dtype, model.w.dtype))
            return ((model.w * batch[0] + model.b - batch[1]) ** 2).mean(), {}

        t = trainer(m, sgd(m), config(d, max_iter=0, dtype=torch.float32), train_dataloader=loader(x, y, 1), loss_fn=loss)
        t.fit()
        s.fact(kinds == [(torch.float32,) * 3], "32 bits")
        w, b = step(w, b, x, y)
        s.eq(m.w.detach().to(torch.float64), w, "w", tol=1e-4)
        s.eq(m.b.detach().to(torch.float64), b, "b", tol=1e-4)


@obligation(P, "qnn", allow_pins=True)
def ob(s):
    """Training a quantum neural network follows the gradient of its loss, over batches and epochs."""
    import qadence as qd

    with scratch() as d:
        b = qd.chain(qd.RX(0, qd.FeatureParameter("x")), qd.RX(0, qd.VariationalParameter("t", value=0.3)))
        m = qd.QNN(qd.QuantumCircuit(1, b), qd.Z(0), inputs=["x"])
        t0 = s.bind(named(m)["t"], "t", -3, 3).clone()
        x, y = s.real("x", (2, 1), -3, 3), s.real("y", (2, 1), -2, 2)
        tr = trainer(m, sgd(m), config(d, max_iter=0), train_dataloader=loader(x, y, 1))
        tr.fit()
        t = t0
        for k in range(2):
            c, sn = torch.cos(x[k] + t), torch.sin(x[k] + t)
            t = t - LR * 2 * (c - y[k]) * (-sn)
        s.eq(named(m)["t"].detach(), t, "after an epoch")
