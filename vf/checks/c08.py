"""C08: moving arrays follow their trajectory at exactly the update instants."""
import numpy as np

from vf.core import case
from vf.simlib import *  # noqa: F403
from vf.moving import MovingScene, Jumps

RULE = ("A processor of block length 1 logs the position of every array and every path at each time index of a run with random static and moving "
        "arrays (positions that differ at every time index, linear, circular, collected, user-written, very slow and frozen trajectories), update intervals "
        "and user-supplied paths. The log is compared with the trajectory at the update instants and with the paths that a static simulation "
        "gives at these positions. Non-trivial: distinct combinations of the kinds of moving arrays and update interval.")
ASSUMPTIONS = ["static room impulse responses are judged by C10", "paths of type random are not used for moving arrays"]
NEED = {"steps": 2000, "path_updates": 1000, "both_moving_pairs": 10, "user_paths_watched": 10, "static_pairs_watched": 8, "logged_positions": 1000}


def warm_up():
    warm_up_sim(dynamic=True)


class Watcher(AudioProcessor):
    def __init__(self, sim_info, arrays):
        super().__init__(sim_info, arrays, 1)
        self.name = "watcher"
        self.log = []

    def process(self, n):
        self.log.append(({a.name: np.array(a.pos, copy=True) for a in self.arrays},
                         {(s.name, m.name): np.array(p, copy=True) for s, m, p in self.arrays.iter_paths()}))


def _freq(rng, tot):
    return int(rng.choice([1, 2, 3, 7, 10, tot // 2 + 1, tot - 1, 3 * tot]))


def _run(c, must_move, scene={}, **cfg):
    rng = c.rng
    tot = int(rng.integers(12, 45))
    scene = MovingScene(rng, tot, _freq(rng, tot), must_move=must_move, **scene)
    extra = dict(extra_delay=int(rng.choice([1, 10, 25])), highpass_cutoff=float(rng.choice([0, 0, 30])), c=float(rng.choice([343, 300, 500])), **cfg)
    t = timing(rng, 1)
    extra |= dict(sim_buffer=t["sim_buffer"], sim_chunk_size=t["sim_chunk_size"])
    ref = scene.reference_paths(**extra)
    if extra["highpass_cutoff"]:
        import scipy.signal as spsig
        for key, typ in scene.types.items():  # the reference has these without the filter
            sos = spsig.butter(2, extra["highpass_cutoff"], "highpass", fs=scene.sr, output="sos")
            p = np.pad(ref[key], [(0, 0)] * 3 + [(scene.sr, scene.sr)])
            ref[key] = spsig.sosfiltfilt(sos, p, axis=-1)[..., scene.sr:-scene.sr]
    sim = scene.build(**extra).create_simulator()
    for a in scene.arrays:
        if a["moves"]:
            c.same(sim.arrays[a["name"]].pos, scene.positions(a)[0], "initial-position", a["name"])
            c.check(sim.arrays[a["name"]].dynamic, "not-dynamic", a["name"])
    for key in ref:
        c.same(sim.arrays.paths[key[0]][key[1]], ref[key][0], "initial-path", f"{key}")
    w = Watcher(sim.sim_info, sim.arrays)
    sim.add_processor(w)
    sim.run_simulation()
    c.check(len(w.log) >= tot, "too-few-steps", f"{len(w.log)} of {tot}", stop=True)
    pos = {a["name"]: scene.positions(a) for a in scene.arrays}
    for n in range(tot):
        k = n // scene.freq
        got_pos, got_paths = w.log[n]
        for a in scene.arrays:
            c.same(got_pos[a["name"]], pos[a["name"]][k], "position", f"{a['name']} ({a['kind']}) at {n}, updates every {scene.freq}", rtol=1e-12, atol=1e-12)
        for key, h in ref.items():
            exact = key in scene.user
            if exact:
                c.check(np.array_equal(got_paths[key], h[k]), "user-path-changed", f"{key} at {n}")
            else:
                c.same(got_paths[key], h[k], "path", f"{key} at {n}, updates every {scene.freq}", rtol=1e-9, atol=1e-10)
        c.count("steps")
        c.count("path_updates", len(ref) if n % scene.freq == 0 else 0)
    for a in scene.arrays:
        arr = sim.arrays[a["name"]]
        if not a["moves"]:
            c.check(np.array_equal(arr.pos, a["pos"]), "static-moved", a["name"])
            continue
        sel = [i for i, t_ in enumerate(arr.time_all) if t_ < tot]
        c.check(len(arr.time_all) == len(arr.pos_all), "log-lengths", f"{len(arr.time_all)} {len(arr.pos_all)}")
        c.same([arr.time_all[i] for i in sel], scene.instants, "log-times", a["name"])
        c.check(list(arr.time_all) == sorted(set(arr.time_all)), "log-order", f"{arr.time_all[:10]}")
        c.same([arr.pos_all[i] for i in sel], pos[a["name"]], "log-positions", a["name"], rtol=1e-12, atol=1e-12)
        c.check(all(np.array_equal(arr.pos_all[i], a["traj"].current_pos(arr.time_all[i])) for i in range(len(arr.time_all))), "log-positions", a["name"])
        c.count("logged_positions", len(sel))
    move = {a["name"] for a in scene.arrays if a["moves"]}
    c.count("both_moving_pairs", sum(s in move and m in move for s, m in ref))
    c.count("static_pairs_watched", sum(s not in move and m not in move for s, m in ref))
    c.count("user_paths_watched", len(scene.user))
    c.nontrivial(tuple(sorted(a["typ"] + a["kind"] for a in scene.arrays)), scene.freq)
    c.note(tot=tot, **scene.describe(), **extra)


@case(quick=32, thorough=500)
def any_moves(c):
    _run(c, "any")


@case(quick=24, thorough=300)
def both_move(c):
    _run(c, "both")


@case(quick=16, thorough=200)
def microphone_moves(c):
    _run(c, "m")


@case(quick=16, thorough=200)
def source_moves(c):
    _run(c, "s")


@case(quick=16, thorough=200)
def names_within_names(c):
    """Three arrays of each type, with names that are parts of each other."""
    _run(c, "any", dict(max_arrays=3, nested=True, user_paths=0.05))


@case(quick=8, thorough=100)
def without_partner(c):
    """A moving array needs no array of the other type."""
    rng = c.rng
    tot, freq = int(rng.integers(10, 40)), int(rng.integers(1, 9))
    setup = configure(SimulatorSetup(), tot_samples=tot, array_update_freq=freq, reverb="ism")
    traj = Jumps(int(rng.integers(1000)), 2, [0.1] * 3, [1] * 3)
    if c.index % 2:
        setup.add_mics("a", traj)
    else:
        setup.add_free_source("a", traj, TraceSource(2, 1))
    sim = setup.create_simulator()
    sim.run_simulation()
    arr = sim.arrays["a"]
    times = [t for t in arr.time_all if t < tot]
    c.same(times, np.arange(0, tot, freq), "log-times", "array without partner")
    c.same(arr.pos_all[:len(times)], np.stack([traj.current_pos(t) for t in times]), "log-positions", "array without partner")
    c.count("logged_positions", len(times))
    c.nontrivial("alone", c.index % 2, freq)


@case(quick=8, thorough=150)
def runs_do_not_share(c):
    """Two simulators of one setup each log their own positions."""
    rng = c.rng
    scene = MovingScene(rng, 20, int(rng.integers(1, 6)), must_move="both", max_arrays=1)
    setup = scene.build()
    sims = [setup.create_simulator() for _ in range(2)]
    for sim in sims:
        sim.run_simulation()
    for sim in sims:
        for a in scene.arrays:
            times = [t for t in sim.arrays[a["name"]].time_all if t < 20]
            c.same(times, scene.instants, "log-times", "second simulator")
    for a in scene.arrays:
        c.check(setup.arrays[a["name"]].time_all == [], "setup-logged", "the setup's array logged positions")
    c.nontrivial("twice", scene.freq)
