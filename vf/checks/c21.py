"""C21: counters and block helpers partition time exactly."""
import math

import numpy as np

import aspsim.counter as counter
import aspsim.processor as proc
import aspsim.utilities as util
import aspsim.diagnostics.core as diacore
from vf.core import case
from vf.simlib import *  # noqa: F403

RULE = ("Counters are stepped through random definitions (lengths of zero, infinite and negative lengths, empty definitions, equal periods, offsets up to the period) alone and inside "
        "processors of running simulations; a model keeps the phase and events of each sample and is compared with the counter after each step. Interval and index counters are "
        "driven in random steps as the recorder does. Block helpers are called with random lengths and must give a partition: positive, complete, in order, within boundaries, "
        "as few blocks as possible. Non-trivial: distinct forms of definitions and relations of sizes.")
ASSUMPTIONS = ["offsets of events are at most their period; index 0 of an event counter is not judged", "start indices are within the first block",
               "lengths of phases are whole numbers, infinite or negative"]
NEED = {"steps": 30000, "phase_changes": 1500, "skipped_phases": 150, "events": 5000, "partitions": 3000, "intervals": 1000, "ended": 50}


def warm_up():
    warm_up_sim()


def some_phases(rng):
    names = ["init", "wait", "process", "a", "b", "Ö", "x1", 7]
    out = {}
    for name in rng.permutation(np.array(names, dtype=object))[:int(rng.integers(0, 7))]:
        kind = rng.random()
        if kind < 0.25:
            v = 0
        elif kind < 0.33:
            v = [np.inf, float("inf"), -1, -5, math.inf][int(rng.integers(5))]
        else:
            v = int(rng.choice([1, 1, 2, 3, 5, 20]))
        if rng.random() < 0.2:
            v = float(v)
        elif rng.random() < 0.2 and not (isinstance(v, float)):
            v = np.int64(v)
        out[name] = v
    return out


def phase_model(phases):
    """Phase and whether it is the first sample, for each index, as a function."""
    spans, at = [], 0
    for name, n in phases.items():
        n = math.inf if n < 0 else n
        spans.append((name, at, at + n))
        at += n

    def model(idx):
        for name, a, b in spans:
            if a <= idx < b:
                return name, idx == a
        return None, None
    return model, at


@case(quick=1000, thorough=8000)
def phases(c):
    rng = c.rng
    given = some_phases(rng)
    before = dict(given)
    model, end = phase_model(given)
    pc = counter.PhaseCounter(given, verbose=bool(rng.random() < 0.2)) if rng.integers(2) else counter.PhaseCounter(given)
    n = int(min(end, 120)) + 15
    last = object()
    for idx in range(n):
        want, first = model(idx)
        c.check(pc.phase == want, "phase", f"{pc.phase} instead of {want} at {idx} of {before}", stop=True)
        if want is not None:
            c.check(bool(pc.first_sample) == first, "first-sample", f"{pc.first_sample} at {idx} of {before}", stop=True)
        for name in list(before) + ["none of them"]:
            c.check(pc.current_phase_is(name) == (want is not None and name == want), "current-phase-is", f"{name} at {idx} of {before}")
        c.check(pc.idx == idx, "index", f"{pc.idx} instead of {idx}")
        if want != last:
            c.count("phase_changes")
            last = want
        c.count("steps")
        pc.progress()
    c.check(given == before, "argument-changed", f"{given} was {before}")
    c.count("skipped_phases", sum(1 for v in before.values() if v == 0))
    c.count("ended", end < n)
    c.nontrivial("phases", tuple("0" if v == 0 else "inf" if v < 0 or math.isinf(v) else "n" for v in before.values()))


@case(quick=200, thorough=4000)
def events(c):
    rng = c.rng
    given = {}
    for name in ["e1", "update_filter", "x", "save"][:int(rng.integers(1, 5))]:
        freq = int(rng.choice([1, 2, 3, 7, 16, 64]))
        given[name] = (freq, int(rng.integers(0, freq + 1)))
        if rng.random() < 0.2:
            given[name] = list(given[name])
    model = {k: tuple(v) for k, v in given.items()}
    ec = counter.EventCounter(given)
    late = None
    for idx in range(1, 200):
        if late is None and rng.random() < 0.02:
            freq = int(rng.choice([1, 2, 5, 10]))
            late = (freq, int(rng.integers(0, freq + 1)))
            ec.add_event("late", *late)
            model["late"] = late
        ec.progress()
        want = {k for k, (f, o) in model.items() if (idx - o) % f == 0}
        c.check(set(ec.event) == want, "events", f"{ec.event} instead of {sorted(want)} at {idx} of {model}", stop=True)
        c.check(len(ec.event) == len(want), "event-twice", f"{ec.event} at {idx}")
        c.check(ec.idx == idx, "index", f"{ec.idx} instead of {idx}")
        c.count("events", len(want))
        c.count("steps")
    c.nontrivial("events", tuple(sorted(model.values())), late)


@case(quick=12, thorough=200)
def in_processor(c):
    """Counters in processors that see blocks: phases and events of each sample of the simulated time."""
    rng = c.rng
    given = some_phases(rng)
    model, _ = phase_model(given)
    freq = int(rng.choice([1, 3, 8]))
    off = int(rng.integers(0, freq + 1))
    tot, b = int(rng.integers(30, 80)), int(rng.choice([1, 1, 2, 5]))
    setup = configure(SimulatorSetup(None), tot_samples=tot, sim_buffer=int(rng.choice([20, 40])), sim_chunk_size=int(rng.choice([20, 50])))
    setup.add_mics("m", np.zeros((1, 3)))
    setup.add_controllable_source("s", np.ones((1, 3)))
    setup.arrays.path_type["s"]["m"] = "none"
    sim = setup.create_simulator()
    seen = []

    class P(AudioProcessor):
        def __init__(self, sim_info, arrays):
            super().__init__(sim_info, arrays, b)
            self.name = "p"
            self.phases = counter.PhaseCounter(given)
            self.events = counter.EventCounter({"e": (freq, off)})

        def process(self, num):
            for _ in range(num):
                seen.append((self.phases.phase, self.phases.first_sample, list(self.events.event)))
                self.phases.progress()
                self.events.progress()
    sim.add_processor(P(sim.sim_info, sim.arrays))
    sim.run_simulation()
    c.check(len(seen) >= tot // b * b - b, "too-few", f"{len(seen)} of {tot}")
    for idx, (phase, first, ev) in enumerate(seen):
        want, is_first = model(idx)
        c.check(phase == want and (want is None or bool(first) == is_first), "phase", f"{phase}, first {first} at {idx} of {given}")
        if idx > 0:
            c.check(ev == (["e"] if (idx - off) % freq == 0 else []), "events", f"{ev} at {idx} of {(freq, off)}")
        c.count("steps")
    c.nontrivial("processor", b, len(given))


def judge_partition(c, sizes, num, limits, what):
    """limits: the boundaries relative to the start; no block crosses one, and there are no other cuts."""
    sizes = [int(s) for s in sizes]
    c.check(all(s > 0 for s in sizes), "empty-block", f"{sizes} for {what}")
    ends = np.cumsum(sizes).tolist()
    c.check((ends[-1] if ends else 0) == num, "not-complete", f"{sizes} for {what}")
    want = sorted({x for x in limits if 0 < x < num} | ({num} if num else set()))
    c.check(ends == want, "boundaries", f"{sizes}, cut at {ends} instead of {want}, for {what}")
    c.count("partitions")


@case(quick=100, thorough=2000)
def blocks(c):
    rng = c.rng
    for _ in range(20):
        b = int(rng.choice([1, 2, 3, 7, 16, 100]))
        start, num = int(rng.integers(0, b)), int(rng.choice([0, 1, b - 1, b, b + 1, 3 * b, int(rng.integers(0, 300))]))
        judge_partition(c, util.calc_block_sizes(num, start, b), num, [k * b - start for k in range(1, num // b + 3)], f"{num} samples from {start} in blocks of {b}")
        buf, chunk = int(rng.choice([1, 5, 10, 33])), int(rng.choice([1, 4, 10, 25]))
        idx = int(rng.choice([0, buf, buf + chunk - 1])) if rng.integers(2) else int(rng.integers(0, buf + chunk))
        num = int(rng.choice([0, 1, chunk - 1, chunk, chunk + 1, buf + 3 * chunk + 1]))
        judge_partition(c, proc.calc_block_sizes_with_buffer(num, idx, buf, chunk), num, [buf + chunk - idx + k * chunk for k in range(num // chunk + 2)],
                        f"{num} samples from {idx} with buffer {buf} and chunk {chunk}")
        first = int(rng.integers(0, 50))
        end = first + int(rng.choice([0, 1, b - 1, b, b + 1, int(rng.integers(0, 200))]))
        what = f"from {first} to {end} in blocks of {b}"
        at = int(proc.find_first_index_for_block(first, end, b))
        c.check((end - at) % b == 0 and at <= end, "does-not-end-there", f"{at} for {what}")
        c.check(0 <= at - first < b, "starts-late", f"{at} for {what}")
        spans = [(int(x), int(y)) for x, y in proc.block_process_until_index(first, end, b)]
        c.check([y - x for x, y in spans] == [b] * len(spans), "block-size", f"{spans[:3]} for {what}")
        c.check(all(y == x for (_, y), (x, _) in zip(spans, spans[1:])), "blocks-not-adjacent", f"{spans[:4]} for {what}")
        c.check((spans[0][0] == at and spans[-1][1] == end) if spans else at == end, "does-not-end-there", f"{spans[:1]} to {spans[-1:]} for {what}")
        c.count("partitions", 2)
        c.nontrivial("blocks", b, num == 0, idx >= buf, (end - first) % b == 0)


@case(quick=150, thorough=3000)
def intervals(c):
    """Interval counters, driven by a clock that advances in random steps as the recorder does."""
    rng = c.rng
    kind, tot = int(rng.integers(3)), int(rng.integers(5, 120))
    if kind == 0:
        cuts = np.sort(rng.choice(np.arange(0, tot + 1), size=2 * int(rng.integers(1, min(6, (tot + 1) // 2 + 1))), replace=False)).tolist()
        ivs = [(int(a), int(b)) for a, b in zip(cuts[::2], cuts[1::2])]
        form = [ivs, [list(v) for v in ivs], tuple(ivs), np.array(ivs)][int(rng.integers(4))]
        ic = diacore.IntervalCounter(form)
        want = [k for a, b in ivs for k in range(a, b)]
    elif kind == 1:
        idx = np.sort(rng.choice(np.arange(1, tot + 1), size=int(rng.integers(1, min(tot, 20))), replace=False)).tolist()
        ic = diacore.IntervalCounter([idx, tuple(idx), np.array(idx)][int(rng.integers(3))])
        want = [k - 1 for k in idx]  # the state after idx samples is the one that is recorded
    else:
        freq = int(rng.choice([1, 2, 3, 10, tot, tot + 1]))
        ic = diacore.IntervalCounter.from_frequency(freq, tot)
        want = list(range(freq - 1, tot, freq))
    c.check(kind == 2 or ic.num_values == len(want), "number-of-values", f"{ic.num_values} instead of {len(want)}")
    c.check(ic.num_values >= len(want), "number-of-values", f"{ic.num_values} for {len(want)}")
    got, now = [], 0
    while now < tot:
        now = min(tot, now + int(rng.choice([1, 1, 2, 5, 30])))
        for _ in range(1000):
            start, end = ic.upcoming()
            if start >= now:
                break
            upto = min(end, now)
            got += list(range(int(start), int(upto)))
            ic.progress(upto)
            c.check(ic.saved_until == upto, "saved-until", f"{ic.saved_until} after {upto}")
        c.check(ic.upcoming()[0] >= now, "behind", f"upcoming {ic.upcoming()} at {now}")
    c.check(got == want, "intervals", f"{got[:10]} instead of {want[:10]} of {kind}")
    c.check(ic.upcoming() == (np.inf, np.inf), "not-finished", f"{ic.upcoming()}")
    sel = np.sort(rng.choice(np.arange(1, tot + 1), size=int(rng.integers(1, min(tot, 12))), replace=False)).tolist()
    every = int(rng.integers(1, tot + 3))
    for xc, exp in [(diacore.IndexCounter(sel if rng.integers(2) else tuple(sel)), sel), (diacore.IndexCounter(every, tot), list(range(every, tot + 1, every)))]:
        seen = []
        while xc.upcoming() != np.inf and len(seen) <= tot:
            c.check(xc.upcoming() == xc.upcoming(), "changes-when-asked", "")
            seen.append(int(xc.upcoming()))
            xc.progress()
        c.check(seen == exp, "indices", f"{seen[:10]} instead of {exp[:10]}")
        c.check(xc.upcoming() == np.inf, "not-finished", f"{xc.upcoming()}")
    c.count("intervals", len(want))
    c.nontrivial("intervals", kind, len(want))
