import pathlib

from sim import audit, env, gen as G, history, runner, textmodel
from sim.core import HarnessError, Violation
from sim.ref import Ref
from sim.world import CLASSES, World, model_file_text

TITLE = "model file loading under I/O faults"
LEVEL = "exploration"
RUNS = 6000
RULE = ("seeded sequences of loads of seeded model files from a simulated file system: short reads (down to one byte, "
        "splitting characters), small buffers, BOM, CR/LF, no final newline, shuffled rows, files beyond the buffer "
        "sizes; failing opens, read errors at seeded offsets, files cut at seeded bytes, rewritten in place between "
        "two reads, flipped bytes, edited rows, loads cut short at seeded executed lines.  An independent "
        "parser classifies the bytes actually delivered; the loaded model is compared with what they describe, or has "
        "to be refused, and is then simulated and audited; earlier models are compared with what they were and handles "
        "have to be closed when the call comes back.  A case counts when a load is attempted; distinct = distinct "
        "delivered bytes with their way of delivery")
NEED = ["probe:clean-load", "probe:short-reads", "probe:split-character", "probe:bom", "probe:crlf", "probe:big-file",
        "probe:must-raise", "probe:inconsistent", "probe:torn-but-readable", "probe:loaded-beside-others",
        "fault:open:FileNotFoundError", "fault:open:PermissionError", "fault:open:OSError", "fault:read:OSError",
        "fault:read:MemoryError", "fault:cut", "fault:rewritten", "fault:flipped", "fault:edited",
        "fault:line:KeyboardInterrupt", "probe:pathlike"]
ASSUME = ["unreadable numbers in the optional columns (LSP bandwidth and metric, lon, lat) count as blank, as the "
          "loader documents in code", "a file cut so that what is left is a complete description of a smaller network "
          "cannot be told from that network's own file"]
STUB = runner.STUB + ["the file system (VFS: open, reads, contents)"]
OPEN_EXC = {"FileNotFoundError": lambda: FileNotFoundError(2, "sim: No such file"),
            "PermissionError": lambda: PermissionError(13, "sim: Permission denied"),
            "OSError": lambda: OSError(24, "sim: Too many open files")}
READ_EXC = {"OSError": lambda: OSError(5, "sim: Input/output error"),
            "MemoryError": lambda: MemoryError("sim"),
            "KeyboardInterrupt": lambda: KeyboardInterrupt("sim")}


def gen(r, i, tier):
    loads = []
    last = None
    for _ in range(r.randint(1, 4 if tier == "quick" else 8)):
        if last is not None and r.random() < 0.3:
            spec = last
        else:
            spec = G.make_spec(r, builds=("file",))
            last = spec
        spec = dict(spec)
        for n in spec["nodes"]:
            if r.random() < 0.3:
                n["lat"] = r.choice([37.5, -0.25, 12.125])
            if r.random() < 0.3:
                n["brief"] = True
                if r.random() < 0.6:
                    n["lat"] = 0
                    n["lon"] = r.choice([0, n["lon"]])
        for d in spec["demands"] + spec["lsps"]:
            if r.random() < 0.3:
                d["brief"] = d["longrow"] = True
        for x in spec["lsps"]:
            if x["bw"] is not None and r.random() < 0.3:
                x["bw"] = r.choice([7.5, 0.25, 1e3, 12.0])
        for ln in spec["links"]:
            if r.random() < 0.1:
                ln["longrow"] = True
            if r.random() < 0.1:
                ln["p" + r.choice("ab")] = r.choice([62.5, 0, 99.9])
            if r.random() < 0.2:
                ln.update(rsvprow=True, yes=r.choice(["True", "T", "true"]), no=r.choice(["False", "F", "false", ""]))
        spec["lsp_table"] = r.random() < 0.7
        spec["nodes"], spec["demands"], spec["lsps"] = (r.sample(spec[k], len(spec[k]))
                                                        for k in ("nodes", "demands", "lsps"))
        extra = r.choice([0, 0, 0, 0, 0, 0, 3, 150, 300]) if r.random() < 0.97 else 1500
        fmt = {"bom": r.random() < 0.2, "crlf": r.random() < 0.2, "nonl": r.random() < 0.3, "extra": extra,
               "chunks": r.choice([None, None, [1], [2, 3], [7], [64], [1, 100, 5], [4096], [8192]]),
               "bufsize": r.choice([8192, 8192, 16, 1, 1000]), "path": r.random() < 0.3}
        if extra and fmt["chunks"] and fmt["chunks"][0] < 64:
            fmt["chunks"] = [64, 333]
        kind = r.choice([None, None, "open", "read", "cut", "cut", "rewritten", "flipped", "edited", "edited", "line"])
        fault = {"kind": kind}
        if kind == "open":
            fault["exc"] = r.choice(sorted(OPEN_EXC))
        elif kind == "read":
            fault.update(exc=r.choice(sorted(READ_EXC)), frac=round(r.random(), 4))
        elif kind == "cut":
            fault.update(frac=round(r.choice([r.random(), 0.5 + r.random() / 2, 0.9 + r.random() / 10]), 5))
        elif kind == "rewritten":
            fault.update(after=r.randint(1, 4), spec=G.make_spec(r, model=spec["model"], builds=("file",))
                         if r.random() < 0.5 else None, edit=[r.choice(EDITS), r.randint(0, 10 ** 6)])
            if fmt["chunks"] is None:
                fmt["chunks"] = [64, 33]
        elif kind == "flipped":
            fault.update(frac=round(r.random(), 5), bit=r.randint(0, 7))
        elif kind == "edited":
            fault["edits"] = [[r.choice(EDITS), r.randint(0, 10 ** 6)] for _ in range(r.choice([1, 1, 1, 2, 3]))]
        elif kind == "line":
            fault.update(frac=round(r.random(), 4), exc=r.choice(["KeyboardInterrupt", "MemoryError", "TimeoutError",
                                                                   "SystemExit"]))
        loads.append({"spec": spec, "fmt": fmt, "fault": fault})
    return {"loads": loads}


EDITS = ["drop-row", "drop-row", "dup-row", "drop-field", "add-field", "number", "number", "garbage", "ghost", "blank-line",
         "drop-header", "swap-rows", "swap-fields"]


def edit(lines, kind, n):
    """One alteration of the text, by rows and fields."""
    rows = [j for j, x in enumerate(lines) if "\t" in x and not x.startswith(("node_object_name", "name\t", "source"))]
    heads = [j for j, x in enumerate(lines) if x.endswith("_TABLE")]
    if kind == "drop-header":
        if heads:
            del lines[heads[n % len(heads)]]
        return
    if kind == "blank-line":
        lines.insert(n % (len(lines) + 1), "")
        return
    if not rows:
        return
    j = rows[n % len(rows)]
    f = lines[j].split("\t")
    k = (n // 7) % len(f)
    if kind == "drop-row":
        del lines[j]
    elif kind == "dup-row":
        lines.insert(j, lines[j])
    elif kind == "swap-rows":
        o = rows[(n // 11) % len(rows)]
        lines[j], lines[o] = lines[o], lines[j]
    else:
        if kind == "drop-field":
            del f[k]
        elif kind == "add-field":
            f.insert(k, ["", "7", "True", "x"][n % 4])
        elif kind == "swap-fields":
            o = (n // 11) % len(f)
            f[k], f[o] = f[o], f[k]
        elif kind == "ghost":
            f[n % 2] = "ghost"
        elif kind == "garbage":
            f[k] = ["", "abc", "-1", "0", "1.5", "nan", "\u00e9", "True"][n % 8]
        elif kind == "number":
            nums = [x for x in range(len(f)) if f[x].isdigit()]
            if nums:
                f[nums[n % len(nums)]] = str((n // 13) % 400)
        lines[j] = "\t".join(f)


def contents(spec, fmt):
    text = model_file_text(spec)
    if fmt["extra"]:
        flex = spec["model"] in ("flex", "plm")
        more = "".join("orphan-node-with-a-rather-long-name-{}\t{}\t{}{}\n".format(
            j, j % 90, -(j % 45), "\tTrue" if flex and j % 3 == 0 else "") for j in range(fmt["extra"]))
        head, tail = text.split("\nDEMANDS_TABLE\n")
        text = head + more + "\nDEMANDS_TABLE\n" + tail
    return text


def encode(text, fmt):
    if fmt["nonl"]:
        text = text.rstrip("\n")
    if fmt["crlf"]:
        text = text.replace("\n", "\r\n")
    return (b"\xef\xbb\xbf" if fmt["bom"] else b"") + text.encode("utf-8")


def file_spec(spec, fmt, fault, stats):
    """The simulated file, and the error a fault will raise (or None)."""
    text = contents(spec, fmt)
    kind = fault["kind"]
    versions, switch, exc = None, [], None
    out = {"bufsize": fmt["bufsize"]}
    if fmt["chunks"]:
        out["chunks"] = fmt["chunks"]
    if kind == "edited":
        lines = text.split("\n")
        for k, n in fault["edits"]:
            edit(lines, k, n)
        text = "\n".join(lines)
        stats.inc("fault:edited")
    data = encode(text, fmt)
    if kind == "cut":
        data = data[:int(len(data) * fault["frac"])]
        stats.inc("fault:cut")
    elif kind == "flipped":
        at = int((len(data) - 1) * fault["frac"])
        data = data[:at] + bytes([data[at] ^ (1 << fault["bit"])]) + data[at + 1:]
        stats.inc("fault:flipped")
    elif kind == "rewritten":
        if fault["spec"] is not None:
            other = contents(fault["spec"], fmt)
        else:
            lines = text.split("\n")
            edit(lines, *fault["edit"])
            other = "\n".join(lines)
        versions = [data, encode(other, fmt)]
        switch = [[fault["after"], 1]]
        stats.inc("fault:rewritten")
    elif kind == "open":
        exc = OPEN_EXC[fault["exc"]]()
        out["open_error"] = exc
    elif kind == "read":
        exc = READ_EXC[fault["exc"]]()
        out["fail"] = (int(len(data) * fault["frac"]), exc)
    out["versions"] = versions or [data]
    out["switch"] = switch
    return out, exc


def adopt(model, spec, log, stats):
    w = World.__new__(World)
    w.spec, w.log, w.stats, w.m, w.ref = spec, log, stats, model, Ref(spec)
    w.dirty = w.must_update = True
    w.simulated = False
    w.update_lines = 4000
    return w


def places(w):
    return {n.name: (n.lat, n.lon) for n in w.m.node_objects}


def execute(plan, log, stats):
    env.VFS.install()
    worlds = []
    for j, load in enumerate(plan["loads"]):
        spec, fmt, fault = load["spec"], load["fmt"], load["fault"]
        cls = CLASSES[spec["model"]]
        flex = spec["model"] in ("flex", "plm")
        path = "/sim/model{}.csv".format(j % 2)
        fs, exc = file_spec(spec, fmt, fault, stats)
        env.VFS.files = {path: fs}
        before = env.VFS.fired
        arg = pathlib.Path(path) if fmt["path"] else path
        got, err, leaked = None, None, 0
        line_exc = tracer = None
        if fault["kind"] == "line":
            line_exc = history.EXCS[fault["exc"]]()
            count = env.LineTracer(nx=False)
            with env.quiet_stdout(), count:
                try:
                    cls.load_model_file(arg)
                except Exception as e:
                    raise Violation("refused-load", "an intact file was refused: {!r}".format(e))
            tracer = env.LineTracer(at=1 + int(fault["frac"] * count.n), exc=line_exc, nx=False)
        env.VFS.opens = 0
        env.VFS.streams = []
        try:
            with env.quiet_stdout():
                if tracer is not None:
                    with tracer:
                        got = cls.load_model_file(arg)
                else:
                    got = cls.load_model_file(arg)
        except (HarnessError, runner.WatchdogFired):
            raise
        except BaseException as e:
            leaked = env.VFS.open_handles
            if not isinstance(e, Exception) and e is not exc and e is not line_exc:
                raise
            err = e
            if e is line_exc:
                # the interruption may have come between opening and entering `with`: the handle
                # then goes with the frame
                err = e.with_traceback(None)
                err.__context__ = None
                leaked = 0
        if err is not None and err is line_exc:
            leaked = env.VFS.open_handles
        err_name = type(err).__name__ if err is not None else None
        delivered = bytes(env.VFS.streams[-1].delivered) if env.VFS.streams else b""
        nreads = env.VFS.streams[-1].reads if env.VFS.streams else 0
        log.add("load", j, spec["model"], fault["kind"], err_name, len(delivered), nreads)
        stats.state((spec["model"], delivered, fmt["chunks"], fmt["bufsize"], fault["kind"], err_name))
        if leaked or (err is None and env.VFS.open_handles):
            raise Violation("left-open", "the model file is still open when load_model_file {} (fault {})".format(
                "raises " + err_name if err_name else "returns", fault["kind"]))
        fired = env.VFS.fired > before or (tracer is not None and tracer.fired)
        if exc is not None and env.VFS.fired > before or (tracer is not None and tracer.fired):
            stats.inc("fault:{}:{}".format(fault["kind"], fault["exc"]))
        want, info = textmodel.read(delivered, flex)
        if fired:
            if err is None:
                raise Violation("swallowed", "{} {} while loading, and a model came back".format(
                    fault["kind"], fault["exc"]))
            if fault["exc"] in ("KeyboardInterrupt", "SystemExit", "MemoryError") and err is not (exc or line_exc):
                raise Violation("swallowed", "{} came back as {!r}".format(fault["exc"], err))
        elif want == "ok":
            if err is not None:
                raise Violation("refused-load", "a proper model file was refused ({}): {!r}".format(
                    fault["kind"], str(err)[:300]))
            info = dict(info, model=spec["model"], build="file")
            w = adopt(got, info, log, stats)
            audit.config(w)
            have, should = places(w), {n["name"]: (n["lat"], n["lon"]) for n in info["nodes"]}
            audit.diff("coordinates", have, should)
            cids = {(i.node_object.name, i.name): str(i.circuit_id) for i in got.interface_objects}
            if flex:
                audit.diff("circuit ids", cids, {
                    (ln[s], ln[s + "n"]): ln["cid"] for ln in info["links"] for s in "ab"})
            w.apply(["update"])
            snap = audit.snapshot(w)
            log.add("snap", snap.text)
            stats.inc("updates")
            audit.config(w)
            audit.demand_paths(w.ref, snap, stats)
            audit.loads(w.ref, snap, stats)
            audit.conservation(w.ref, snap, stats)
            audit.reservations(w.ref, snap, stats)
            worlds.append((w, snap.text, have))
            if fault["kind"] is None:
                stats.inc("probe:clean-load")
            elif fault["kind"] in ("cut", "rewritten"):
                stats.inc("probe:torn-but-readable")
            for name, on in (("bom", fmt["bom"]), ("crlf", fmt["crlf"]), ("short-reads", nreads > 3),
                             ("big-file", len(delivered) > 8192), ("pathlike", fmt["path"]),
                             ("split-character", fmt["chunks"] == [1] and len(delivered) > len(
                                 delivered.decode("utf-8"))),
                             ("loaded-beside-others", len(worlds) > 1)):
                if on:
                    stats.inc("probe:" + name)
        elif want == "raise":
            stats.inc("probe:must-raise")
            if err is None:
                raise Violation("accepted-load", "a file that cannot be read as a model ({}) gave one ({})".format(
                    info, fault["kind"]))
        elif want == "inconsistent":
            stats.inc("probe:inconsistent")
            if err is None:
                try:
                    with env.quiet_stdout():
                        got.update_simulation()
                except Exception as e:
                    err = e
                if err is None:
                    raise Violation("accepted-load", "an inconsistent network ({}) was loaded and simulated ({})".format(
                        info, fault["kind"]))
        got = err = None
        # earlier models are as they were
        for w, text, have in worlds[:-1] if want == "ok" and not fired else worlds:
            audit.config(w)
            if audit.snapshot(w).text != text or places(w) != have:
                raise Violation("other-model", "loading one model changed another")
    for w, text, have in worlds:
        # and can be simulated again
        w.apply(["update"])
        snap = audit.snapshot(w)
        audit.config(w)
        audit.demand_paths(w.ref, snap, stats)
        audit.loads(w.ref, snap, stats)


def shrink(plan):
    for cand in runner.drop_each(plan["loads"]):
        yield dict(plan, loads=cand)
    for j, load in enumerate(plan["loads"]):
        def put(**kw):
            return dict(plan, loads=[dict(load, **kw) if i == j else x for i, x in enumerate(plan["loads"])])
        for k, v in (("bom", False), ("crlf", False), ("nonl", False), ("extra", 0), ("chunks", None),
                     ("bufsize", 8192), ("path", False)):
            if load["fmt"][k] != v:
                yield put(fmt=dict(load["fmt"], **{k: v}))
        if load["fault"]["kind"] is not None:
            yield put(fault={"kind": None})
        for s in runner.shrink_spec(load["spec"]):
            yield put(spec=s)
