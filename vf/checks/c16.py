"""C16: saved configuration and metadata state what was really simulated."""
import dataclasses
import json
from pathlib import Path

import numpy as np

import aspsim.configutil as configutil
from vf.core import case
from vf.simlib import *  # noqa: F403
from vf.checks.c13 import make as random_source, KINDS
from vf.moving import Jumps
from vf import ism

RULE = ("Random configurations are saved and loaded from folder and file and compared value by value (also their types), and impossible ones are offered. Random setups "
        "with arrays of all kinds, groups, regions, all source types, moving arrays, supplied paths and processors are created with an output folder "
        "while the setup is changed before and after; every value in the written files is compared with the simulator. "
        "Non-trivial: distinct kinds of sources, arrays and changes.")
ASSUMPTIONS = ["configuration values are plain Python numbers, strings, booleans and lists", "all but the listed files in the output folder are plots"]
NEED = {"truncations": 8, "configs": 100, "config_values": 2000, "refused_configs": 20, "output_folders": 60, "array_entries": 150, "path_entries": 150, "positions": 300,
        "source_entries": 60, "processor_entries": 30, "changed_setups": 20, "sessions": 8, "later_powers_saved": 8, "many_microphones": 900}


def warm_up():
    warm_up_sim(dynamic=True)


FIELDS = [f.name for f in dataclasses.fields(configutil.SimulatorInfo)]


def random_info(rng):
    num = lambda: float(rng.choice([rng.uniform(0, 10), 10.0 ** rng.integers(-8, 9), 1 / 3, 1e-5, float(rng.integers(100)), 343.0]))  # noqa: E731
    d = int(rng.choice([2, 3, 3]))
    vec = lambda: [float(v) if rng.integers(2) else int(v) for v in rng.uniform(-9, 9, d)]  # noqa: E731
    flag = lambda: bool(rng.integers(2))  # noqa: E731
    whole = lambda: int(rng.choice([0, 1, 7, 48000, 10 ** 9, 10 ** 15]))  # noqa: E731
    return dict(tot_samples=whole(), sim_buffer=whole(), sim_chunk_size=whole(), start_sources_before_0=flag(), save_source_contributions=flag(),
                array_update_freq=whole(), samplerate=whole(), c=num(), spatial_dims=d, reverb=str(rng.choice(["none", "direct", "random", "ism"])),
                room_size=vec(), room_center=vec(), rt60=num(), max_room_ir_length=whole(), randomized_ism=flag(), extra_delay=whole(), highpass_cutoff=num(),
                export_frequency=whole(), plot_output=str(rng.choice(["none", "pdf", "show", "svg", "tikz", "yes", "1.5", "off"])), output_smoothing=whole(),
                auto_save_load=flag())


def same_info(c, got, want, key, what):
    for k in FIELDS:
        g, w = getattr(got, k), want[k] if isinstance(want, dict) else getattr(want, k)
        c.check(type(g) is type(w) and g == w, key, f"{what}: {k} is {g!r} instead of {w!r}")
        c.count("config_values")


@case(quick=120, thorough=3000)
def config_round_trip(c):
    rng = c.rng
    values = random_info(rng)
    c.check(set(values) == set(FIELDS), "fields", f"{set(values) ^ set(FIELDS)}", stop=True)
    info = configutil.SimulatorInfo(**values)
    folder = c.tmp()
    info.save_to_file(folder)
    c.check([f.name for f in folder.iterdir()] == ["config.yaml"], "config-file", f"{list(folder.iterdir())}")
    same_info(c, configutil.load_from_file(folder), values, "loaded-from-folder", "from the folder")
    same_info(c, configutil.load_from_file(folder / "config.yaml"), values, "loaded-from-file", "from the file")
    c.check(configutil.load_from_file(folder) == info, "not-equal", f"{values}")
    other = folder / "named otherwise.yaml"
    (folder / "config.yaml").rename(other)
    same_info(c, SimulatorSetup(config_path=str(other) if rng.integers(2) else other).sim_info, values, "loaded-by-setup", "by the setup")
    info.save_to_file(None)
    c.count("configs")
    c.nontrivial("round trip", values["reverb"], values["spatial_dims"], values["plot_output"])


@case(quick=24, thorough=200)
def impossible_configs(c):
    rng = c.rng
    base = random_info(rng)
    d = base["spatial_dims"]
    gone = FIELDS[int(rng.integers(len(FIELDS)))]
    bad = [dict(base, reverb="hall"), dict(base, reverb=""), dict(base, room_size=[1.0] * (d + 1)), dict(base, room_center=[1.0] * (d - 1)),
           dict(base, spatial_dims=d + 1), dict(base, unknown=1), {k: v for k, v in base.items() if k != gone}]
    import yaml
    for k, values in enumerate(bad):
        c.raises(lambda: configutil.SimulatorInfo(**values), "impossible-accepted", f"{k}: {{k: v for k, v in values.items() if base.get(k) != v}}")
        path = c.tmp() / "config.yaml"
        path.write_text(yaml.safe_dump(values))
        c.raises(lambda: configutil.load_from_file(path), "impossible-loaded", f"{k}")
        c.raises(lambda: SimulatorSetup(config_path=path), "impossible-loaded-by-setup", f"{k}")
        c.count("refused_configs", 3)
    c.nontrivial("impossible", d)


@case(quick=4, thorough=4)
def defaults(c):
    """Two default configurations are equal and do not share their lists."""
    a, b = configutil.load_default_config(), SimulatorSetup().sim_info
    same_info(c, a, b, "defaults-differ", "default")
    a.room_size[0] = 77.0
    c.check(b.room_size[0] != 77.0 and configutil.load_default_config().room_size[0] != 77.0, "defaults-shared", "room_size")
    c.nontrivial("default")


class Proc(AudioProcessor):
    def process(self, n):
        pass


def build(c, fig, sessions=None):
    rng = c.rng
    size = rng.uniform(3, 5, 3)
    cfg = dict(reverb=str(rng.choice(["ism", "ism", "random", "none"])), room_size=size.tolist(), room_center=rng.uniform(-1, 1, 3).tolist(), extra_delay=5,
               max_room_ir_length=int(rng.integers(20, 60)), c=float(rng.choice([343, 320])), samplerate=int(rng.choice([1000, 2000])), tot_samples=6,
               output_smoothing=int(rng.integers(1, 9)))
    if rng.random() < 0.3:
        cfg["rt60"] = float(ism.sabine_limit(size, cfg["c"]) * 1.1)
    setup = configure(SimulatorSetup(fig, sessions), **cfg)
    setup.sim_info.plot_output = str(rng.choice(["pdf", "svg"]))
    setup.sim_info.auto_save_load = sessions is not None
    want = {}
    ce = np.asarray(cfg["room_center"])
    inside = lambda n: ce + rng.uniform(-0.4, 0.4, size=(n, 3)) * size  # noqa: E731
    for i in range(int(rng.integers(1, 4))):
        n, kind, name = int(rng.integers(1, 4) if rng.random() < 0.8 else rng.integers(20, 70)), str(rng.choice(["mic", "groups", "set_groups", "region", "two regions", "moving"])), f"m{i}"
        if kind == "moving" and cfg["reverb"] == "random":
            kind = "mic"
        w = dict(type="MicArray", groups=1, dynamic=False)
        if kind in ("mic", "set_groups"):
            arr = ar.MicArray(name, inside(n))
            if kind == "set_groups":
                g = [np.arange(0, k + 1) for k in range(int(rng.integers(1, 4)))]
                arr.set_groups(g)
                w["groups"] = len(g)
                w["members"] = g
        elif kind == "groups":
            k = int(rng.integers(1, 4))
            parts = [inside(int(rng.integers(1, 3))) for _ in range(k)]
            arr = ar.MicArray(name, parts)
            w["groups"] = k
            w["parts"] = parts
        elif kind == "region":
            reg = [region.Ball(0.3, ce, (0.25, 0.25, 0.25)), region.Cuboid((0.4, 0.4, 0.4), ce, (0.2, 0.2, 0.2)), region.Disc(0.4, ce, (0.2, 0.2))][int(rng.integers(3))]
            arr = ar.RegionArray(name, reg)
            w |= dict(type="RegionArray", shape=type(reg).__name__)
        elif kind == "two regions":
            balls = [region.Ball(0.2, ce, (0.2, 0.2, 0.2)), region.Ball(0.2, ce + (0.6, 0, 0), (0.2, 0.2, 0.2))]
            arr = ar.RegionArray(name, balls)
            w |= dict(type="RegionArray", shape="CombinedRegion", groups=2, parts=[b.equally_spaced_points() for b in balls])
        else:
            arr = ar.MicArray(name, Jumps(int(rng.integers(1000)), n, ce - 0.4 * size, ce + 0.4 * size))
            w["dynamic"] = True
        setup.add_array(arr)
        want[name] = w
    for i in range(int(rng.integers(1, 4))):
        name = f"s{i}"
        if rng.random() < 0.3:
            setup.add_controllable_source(name, inside(int(rng.integers(1, 4))))
            want[name] = dict(type="ControllableSourceArray", groups=1, dynamic=False)
            continue
        kind = str(rng.choice([k for k in KINDS if k not in ("SourceArray", "SequenceRaise")]))
        kind, ch, mk = random_source(rng, kind)
        src = mk(np.random.default_rng(1))
        setup.add_free_source(name, inside(ch), src)
        if rng.random() < 0.4:
            src = mk(np.random.default_rng(2)) if rng.integers(2) else sources.WhiteNoiseSource(ch, 2.5 if rng.integers(2) else np.full(ch, 0.5))
            setup.set_source(name, src)
        power = None
        if hasattr(src, "set_power") and rng.random() < 0.6:
            power = float(rng.uniform(0.1, 5)) if rng.integers(2) else rng.uniform(0.1, 5, ch)
            src.set_power(power)
            c.count("powers_set_later")
        want[name] = dict(type="FreeSourceArray", groups=1, dynamic=False, source=src, power=power)
    for s in setup.arrays.sources():
        for m in setup.arrays.mics():
            if rng.random() < 0.25:
                setup.set_path(s.name, m.name, rng.normal(size=(s.num, m.num, 4)))
            elif rng.random() < 0.25:
                setup.arrays.set_path_types({s.name: {m.name: str(rng.choice(["none", "ism"]))}})
    return setup, want


def plain(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def judge(c, sim, setup, want, info, types_, what):
    folder = sim.folder_path
    c.check(folder is not None and Path(folder).is_dir(), "no-folder", what, stop=True)
    same_info(c, configutil.load_from_file(folder), info, "saved-configuration", what)
    same_info(c, sim.sim_info, info, "simulated-configuration", what)
    meta = json.loads((folder / "metadata_arrays.json").read_text())
    c.check(set(meta) == set(want), "array-names", f"{sorted(meta)} {sorted(want)}")
    pos = json.loads((folder / "array_pos.json").read_text())
    c.check(set(pos) == set(want), "position-names", f"{sorted(pos)} {sorted(want)}")
    for name, w in want.items():
        m, arr = meta.get(name, {}), sim.arrays[name]
        say = f"{what}: {name} has {m}"
        c.check(m.get("type") == w["type"], "array-type", f"{say}, is a {w['type']}")
        c.check(m.get("number") == arr.num == len(arr.pos), "array-number", f"{say}, has {arr.num}")
        c.check(m.get("number of groups") == w["groups"], "array-groups", f"{say}, has {w['groups']} groups")
        c.check(m.get("dynamic") is w["dynamic"], "array-dynamic", f"{say}, dynamic {w['dynamic']}")
        if "members" in w:
            c.check(arr.num_groups == w["groups"] and [list(g) for g in arr.group_idxs] == [list(g) for g in w["members"]], "group-members", f"{what}: {name} {arr.group_idxs}")
        if "parts" in w:
            # every group has its own microphones, and all groups together have each microphone once
            c.check(arr.num_groups == w["groups"] == len(arr.group_idxs) == len(arr.pos_segments), "group-members", f"{what}: {name} {arr.num_groups} {arr.group_idxs}")
            for g, part, seg in zip(arr.group_idxs, w["parts"], arr.pos_segments):
                c.same(arr.pos[np.asarray(g)], part, "group-members", f"{what}: {name} {arr.group_idxs}", rtol=0, atol=0)
                c.same(seg, part, "group-members", f"{what}: {name} segments", rtol=0, atol=0)
                c.count("groups")
        if "shape" in w:
            c.check(m.get("region shape") == w["shape"], "array-region", f"{say}, is a {w['shape']}")
        if "source" in w:
            info_ = m.get("source info", {})
            for k, v in w["source"].metadata.items():
                c.check(k in info_ and info_[k] == plain(v), "source-info", f"{say}: {k} is {v}")
            c.check(info_.get("number of channels") == arr.num, "source-info", f"{say}, {arr.num} channels")
            for attr in ("power", "freq", "order"):
                if attr in info_ and hasattr(w["source"], attr):
                    c.check(np.allclose(np.ravel(info_[attr]), np.ravel(getattr(w["source"], attr))), "source-info", f"{say}: {attr} is {getattr(w['source'], attr)}")
            if w.get("power") is not None and "power" in info_:
                c.check(np.allclose(np.broadcast_arrays(np.ravel(info_["power"]), np.ravel(w["power"]))[0], np.ravel(w["power"])), "source-info", f"{say}: power was set to {w['power']}")
                c.count("later_powers_saved")
            c.count("source_entries")
        c.same(pos.get(name, []), arr.pos, "positions", name, rtol=0, atol=0)
        c.count("array_entries")
        c.count("positions", arr.num)
    paths = json.loads((folder / "metadata_paths.json").read_text())
    c.check(set(paths) == {f"{s}->{m}" for s, m in types_}, "path-names", f"{sorted(paths)}")
    e_abs = ism.sabine_limit(info["room_size"], info["c"]) / info["rt60"] if info["rt60"] > 0 else 0.9
    for (s, m), t in types_.items():
        p = paths.get(f"{s}->{m}", {})
        c.check(p.get("type") == t, "path-type", f"{what}: {s}->{m} is {t}, file says {p.get('type')}")
        if t == "ism":
            i = p.get("ism_info", {})
            c.check(i.get("Max ISM order") == ism.order(info["room_size"], info["c"], info["rt60"]), "ism-order", f"{i} {info}")
            c.check(abs(i.get("Energy Absorption", -1) - e_abs) < 1e-6, "ism-absorption", f"{i}: {e_abs}")
        c.count("path_entries")
    plots = [f.name for f in folder.iterdir() if f.suffix not in (".json", ".yaml")]
    c.check(plots == [f"array_pos.{info['plot_output']}"], "plots", f"{plots}")


def types_of(setup, reverb):
    out = {}
    for s in setup.arrays.sources():
        for m in setup.arrays.mics():
            t = "modified" if m.name in setup.arrays.paths[s.name] else setup.arrays.path_type[s.name].get(m.name, reverb)
            out[s.name, m.name] = t
    return out


@case(quick=56, thorough=900)
def output_folder(c):
    rng = c.rng
    fig = c.tmp()
    setup, want = build(c, str(fig) if rng.integers(2) else fig)
    if c.index % 2:  # an earlier simulator of the setup with other values
        before = dataclasses.asdict(setup.sim_info)
        types0 = types_of(setup, setup.sim_info.reverb)
        sim0 = setup.create_simulator()
        setup.sim_info.c += 5.0
        setup.sim_info.max_room_ir_length += 3
        setup.sim_info.room_size = [v + 0.5 for v in setup.sim_info.room_size]
        setup.sim_info.rt60 = setup.sim_info.rt60 and float(ism.sabine_limit(setup.sim_info.room_size, setup.sim_info.c) * 1.15)
        setup.add_mics("late", np.asarray(setup.sim_info.room_center)[None] + 0.1)
        want0 = dict(want)
        want["late"] = dict(type="MicArray", groups=1, dynamic=False)
        judge(c, sim0, setup, want0, before, types0, "before the setup was changed")
        c.count("changed_setups")
        c.count("output_folders")
    info = dataclasses.asdict(setup.sim_info)
    types_ = types_of(setup, info["reverb"])
    sim = setup.create_simulator()
    procs = []
    for name in [str(x) for x in rng.choice(["adaptive filter", "x", "Abstract Processor"], size=int(rng.random() < 0.8))]:
        p = Proc(sim.sim_info, sim.arrays, 2)
        p.name = name
        p.metadata = {"step": float(rng.uniform()), "taps": int(rng.integers(99)), "list": [1, 2, {"a": None}], "text": "ä", "off": False, "nothing": None, "zero": 0, "empty": [], "": ""}
        procs.append(p)
    sim.add_processor(procs if rng.integers(2) else procs[0] if procs else [])
    setup.sim_info.c = 1.0
    setup.sim_info.room_size[0] = 1.0
    setup.add_mics("later", np.zeros((1, 3)))
    judge(c, sim, setup, want, info, types_, "after the setup was changed")
    sim.run_simulation()
    meta = json.loads((sim.folder_path / "metadata_processor.json").read_text())
    c.check(meta == {p.name: p.metadata for p in procs}, "processor-metadata", f"{meta}")
    c.count("processor_entries", len(procs))
    same_info(c, configutil.load_from_file(sim.folder_path), info, "saved-configuration", "after the run")
    c.count("output_folders")
    c.nontrivial(tuple(sorted(w["type"] + str(w["groups"]) + type(w.get("source")).__name__ for w in want.values())), bool(c.index % 2))
    c.note(arrays={k: {a: str(b) for a, b in w.items()} for k, w in want.items()}, types={"->".join(k): v for k, v in types_.items()})


@case(quick=16, thorough=200)
def loaded_sessions(c):
    """The files in the output folder are right as well when the paths come from a session."""
    rng = c.rng
    folder = c.tmp()
    setup, want = build(c, c.tmp(), folder)
    first = setup.create_simulator()
    types_ = types_of(setup, setup.sim_info.reverb)
    judge(c, first, setup, want, dataclasses.asdict(setup.sim_info), types_, "saving a session")
    session, = [f for f in folder.iterdir()]
    same_info(c, configutil.load_from_file(session), first.sim_info, "session-configuration", "in the session")
    c.check(json.loads((session / "metadata_sim.json").read_text()) == json.loads((first.folder_path / "metadata_paths.json").read_text()), "session-metadata", "paths")
    setup.sim_info.tot_samples += 1
    setup.sim_info.output_smoothing += 2
    second = setup.create_simulator()
    judge(c, second, setup, want, dataclasses.asdict(setup.sim_info), types_, "with a loaded session")
    c.check(len(list(folder.iterdir())) == 1, "second-session", f"{list(folder.iterdir())}")
    c.check(second.folder_path != first.folder_path, "shared-folder", f"{second.folder_path}")
    c.count("sessions")
    c.count("output_folders", 2)
    c.nontrivial("session", tuple(sorted(set(types_.values()))))


@case(quick=22, thorough=200)
def all_metadata_can_be_saved(c):
    """Every kind of source, with any kind of accepted parameters, tells its metadata as plain numbers."""
    rng = c.rng
    kinds = [k for k in KINDS if k != "SourceArray"]
    kind, ch, mk = random_source(rng, kinds[c.index % len(kinds)])
    src = mk(None)
    text = json.dumps(src.metadata)
    back = json.loads(text)
    c.check(back.get("number of channels") == ch, "source-info", f"{kind}: {back}")
    for k, v in src.metadata.items():
        c.check(back[k] == plain(v), "source-info", f"{kind}: {k}")
    c.count("source_entries")
    c.nontrivial("metadata", kind, ch)


@case(quick=16, thorough=300)
def truncation(c):
    """What the metadata says about the cut off part of the room responses, judged with the responses in full length."""
    rng = c.rng
    fig = c.tmp()
    size = rng.uniform(2.5, 5, size=3)
    center = rng.uniform(-1, 1, size=3)
    rt60 = 0.0 if rng.random() < 0.25 else float(ism.sabine_limit(size, 343) * rng.uniform(1.05, 2.0))
    cfg = dict(room_size=size.tolist(), room_center=center.tolist(), rt60=rt60, extra_delay=int(rng.choice([3, 10, 20])), reverb="ism", plot_output="pdf",
               randomized_ism=False, samplerate=int(rng.choice([500, 1000, 2000])))
    arrays = {}
    for name in ["s0", "s1", "m0", "m1"][:int(rng.integers(3, 5))]:
        arrays[name] = center + rng.uniform(-0.45, 0.45, size=(int(rng.integers(1, 4)), 3)) * size

    def paths_and_info(length, folder):
        setup = configure(SimulatorSetup(folder), **{**cfg, "max_room_ir_length": length, "plot_output": "pdf" if folder else "none"})
        for name, pos in arrays.items():
            (setup.add_controllable_source if name[0] == "s" else setup.add_mics)(name, pos.copy())
        sim = setup.create_simulator()
        return sim.arrays.paths, json.loads((sim.folder_path / "metadata_paths.json").read_text()) if folder else None

    full, _ = paths_and_info(30000, None)
    whole = max(int(np.flatnonzero(np.any(full[s][m], axis=(0, 1)))[-1]) + 1 for s in full for m in full[s])
    length = int(rng.choice([max(1, whole // 4), max(1, whole // 2), max(1, whole - 5), 2 * whole + 50]))
    cut, info = paths_and_info(length, fig)
    for s in full:
        for m, h in full[s].items():
            what = f"{s}->{m}, {length} of {whole} samples, {cfg}"
            got = info[f"{s}->{m}"]["ism_info"]
            c.same(cut[s][m], h[..., :length], "cut-differs", what, rtol=1e-9)
            tail = h[..., length:]
            if not np.any(tail):
                c.check(got["Max Normalized Truncation Error (dB)"] < -200, "truncation-error", f"{got} although nothing is cut, {what}")
            else:
                err = 10 * np.log10(np.max(np.sum(tail ** 2, axis=-1) / np.sum(h ** 2, axis=-1)))
                top = 20 * np.log10(np.max(np.max(np.abs(tail), axis=-1) / np.max(np.abs(h), axis=-1)))
                c.check(abs(got["Max Normalized Truncation Error (dB)"] - err) < 1e-3, "truncation-error", f"{got} instead of {err}, {what}")
                c.check(abs(got["Max Normalized Truncated Value (dB)"] - top) < 1e-3, "truncated-value", f"{got} instead of {top}, {what}")
                c.count("truncations")
            rt = [got[f"Measured RT60 ({k})"] for k in ("min", "median", "mean", "max")]
            if rt60 == 0:
                c.check(rt == [0, 0, 0, 0], "measured-rt60", f"{rt} without reverberation, {what}")
            elif "failed" in rt:
                c.check(set(rt) == {"failed"}, "measured-rt60", f"{rt}, {what}")
            else:
                c.check(rt[0] <= rt[1] <= rt[3] and rt[0] <= rt[2] <= rt[3] and rt[0] >= 0, "measured-rt60", f"{rt}, {what}")
                if h.shape[0] * h.shape[1] <= 2:
                    c.check(abs(rt[1] - rt[2]) <= 1e-9 and abs(rt[1] - (rt[0] + rt[3]) / 2) <= 1e-9, "measured-rt60", f"{rt}, {what}")
    c.nontrivial("truncation", rt60 > 0, length < whole)


@case(quick=3, thorough=40, cpu=240)
def many_microphones(c):
    """What the metadata says about an array does not depend on the order of its microphones, and covers all of them."""
    rng = c.rng
    size = rng.uniform(2.5, 5, size=3)
    center = rng.uniform(-1, 1, size=3)
    cfg = dict(room_size=size.tolist(), room_center=center.tolist(), rt60=float(ism.sabine_limit(size, 343) * rng.uniform(1.05, 1.5)), extra_delay=int(rng.choice([3, 10])),
               reverb="ism", plot_output="pdf", randomized_ism=False, samplerate=500, max_room_ir_length=int(rng.integers(15, 60)))
    n = (501, 502, 560, 499, 620, 1001)[c.index % 6]
    mics = center + rng.uniform(-0.45, 0.45, size=(n, 3)) * size
    src = center + rng.uniform(-0.4, 0.4, size=(1, 3)) * size
    infos = []
    for order in (np.arange(n), rng.permutation(n)):
        setup = configure(SimulatorSetup(c.tmp()), **cfg)
        setup.add_controllable_source("s", src.copy())
        setup.add_mics("m", mics[order])
        sim = setup.create_simulator()
        infos.append(json.loads((sim.folder_path / "metadata_paths.json").read_text())["s->m"]["ism_info"])
    a, b = infos
    c.check(set(a) == set(b), "metadata-keys", f"{a} {b}")
    for k in a:
        same = a[k] == b.get(k) or not any(isinstance(x, str) for x in (a[k], b[k])) and np.allclose(a[k], b[k], rtol=1e-6, atol=1e-9)
        c.check(same, "metadata-of-all-microphones", f"{n} microphones in another order: {k} is {a[k]} or {b.get(k)}, {cfg}")
    c.count("many_microphones", n)
    c.nontrivial("many", n > 500, n)
