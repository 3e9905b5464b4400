"""Control of the simulator runtime (build/libsimrt.so) from inside a worker."""

import contextlib
import ctypes
import os
import sys
import threading

STATS = (
    "regions par_regions chunks switches preemptions accesses atomics locks lock_waits allocs alloc_faults "
    "steals sort_shuffles sort_calls ets_slots stalls races hangs decisions max_workers cancelled "
    "task_failures deadlocks uaf entropy entropy_faults oob guarded looked hash"
).split()
REF_FILL = 0xA5


class Sim:
    def __init__(self):
        path = os.environ.get("VSIM_RT") or os.environ["LD_PRELOAD"]
        lib = self.lib = ctypes.CDLL(path)
        if os.environ.get("LD_PRELOAD") != path:
            raise RuntimeError("the simulator runtime has to be preloaded")
        lib.sim_ctl_seed.argtypes = [ctypes.c_uint64]
        lib.sim_ctl_replay.argtypes = [ctypes.POINTER(ctypes.c_uint32), ctypes.c_size_t]
        lib.sim_ctl_set.argtypes = [ctypes.c_char_p, ctypes.c_long]
        lib.sim_ctl_log.argtypes = [ctypes.POINTER(ctypes.c_uint32), ctypes.c_size_t]
        lib.sim_ctl_log.restype = ctypes.c_size_t
        lib.sim_ctl_stats.argtypes = [ctypes.POINTER(ctypes.c_uint64), ctypes.c_size_t]
        lib.sim_ctl_nstats.restype = ctypes.c_size_t
        lib.sim_ctl_arm_alloc.argtypes = [ctypes.c_uint64, ctypes.c_uint64, ctypes.c_int]
        lib.sim_ctl_disarm_alloc.argtypes = [ctypes.POINTER(ctypes.c_uint64)]
        lib.sim_ctl_disarm_alloc.restype = ctypes.c_uint64
        lib.sim_ctl_nraces.restype = ctypes.c_size_t
        lib.sim_ctl_race.argtypes = [ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t]
        assert lib.sim_ctl_nstats() == len(STATS), lib.sim_ctl_nstats()
        lib.sim_ctl_live.restype = ctypes.c_uint64
        lib.sim_ctl_live_sites.argtypes = [
            ctypes.c_uint64, ctypes.POINTER(ctypes.c_uint64), ctypes.POINTER(ctypes.c_void_p), ctypes.c_size_t]
        lib.sim_ctl_live_sites.restype = ctypes.c_size_t
        self.guarded = False
        self.depth = 0
        self.fill = 0x5A
        self.mode = "ref"

    def set(self, key, v):
        self.lib.sim_ctl_set(key.encode(), v)

    def begin(self, sched, decisions=None):
        """Start one simulated run. sched: {seed, hw, preempt, detect, fill}."""
        self.set("hw", sched.get("hw", 4))
        self.set("preempt", sched.get("preempt", 1))
        self.set("detect", sched.get("detect", 0))
        self.set("access_cap", sched.get("access_cap", 1_000_000_000))
        self.fill = sched.get("fill", 0x5A)
        self.lib.sim_ctl_seed(sched["seed"])
        if decisions is not None:
            a = (ctypes.c_uint32 * max(1, len(decisions)))(*decisions)
            self.lib.sim_ctl_replay(a, len(decisions))
        self._to("ref")

    def _to(self, mode):
        self.mode = mode
        self.set("serial", 1 if mode == "ref" else 0)
        self.set("fill", REF_FILL if mode == "ref" else self.fill)

    @contextlib.contextmanager
    def world(self):
        """Calls made in here run under the scheduler's choices."""
        old = self.mode
        self._to("world")
        try:
            yield
        finally:
            self._to(old)

    @contextlib.contextmanager
    def ref(self):
        """Calls made in here run on one worker in index order."""
        old = self.mode
        self._to("ref")
        try:
            yield
        finally:
            self._to(old)

    def guard(self):
        """From now on every block of the heap is one whose bounds and life are watched."""
        if self.guarded:
            return
        import numpy as np

        self.set("guard", 1)
        self.guarded = True
        # the small blocks NumPy has kept for itself are older
        self.old = [np.empty(k, np.uint8) for k in range(1, 1040) for _ in range(9)]

    def unguard(self):
        if self.guarded:
            self.set("guard", 0)
            self.guarded = False

    def live(self):
        """Blocks in use that the extension modules took, and the time."""
        t = ctypes.c_uint64(0)
        self.lib.sim_ctl_live_sites(0, ctypes.byref(t), None, 0)
        return int(self.lib.sim_ctl_live()), int(t.value)

    def live_sites(self, since):
        a = (ctypes.c_void_p * 4096)()
        n = self.lib.sim_ctl_live_sites(since, None, a, 4096)
        return [int(x or 0) for x in a[:n]]

    def end(self):
        self.disarm()
        self._to("ref")

    def stats(self):
        out = (ctypes.c_uint64 * len(STATS))()
        self.lib.sim_ctl_stats(out, len(STATS))
        return dict(zip(STATS, out))

    def log(self):
        n = self.lib.sim_ctl_log(None, 0)
        out = (ctypes.c_uint32 * max(1, n))()
        self.lib.sim_ctl_log(out, n)
        return list(out[:n])

    def races(self):
        res = []
        for i in range(self.lib.sim_ctl_nraces()):
            b = ctypes.create_string_buffer(600)
            self.lib.sim_ctl_race(i, b, 600)
            res.append(b.value.decode())
        return res

    def arm(self, at, count=1, where=0):
        """Fails the at-th allocation of the extension modules from now. where: 0 any, 1 in a parallel region, 2 outside."""
        self.lib.sim_ctl_arm_alloc(at, count, where)

    def disarm(self):
        """Returns (allocations seen since arm, allocations failed)."""
        fired = ctypes.c_uint64(0)
        seen = self.lib.sim_ctl_disarm_alloc(ctypes.byref(fired))
        return int(seen), int(fired.value)


class LineFault:
    """Raises exc at the nth line event inside freud's Python files (None: only counts)."""

    def __init__(self, nth, exc):
        self.nth, self.exc = nth, exc
        self.seen = 0
        self.fired = 0
        self.where = None

    def _local(self, frame, event, arg):
        if event == "line":
            self.seen += 1
            if self.nth is not None and self.seen == self.nth:
                self.fired = 1
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
                sys.settrace(None)
                raise self.exc("injected")
        return self._local

    def _global(self, frame, event, arg):
        f = frame.f_code.co_filename
        if "/pkg/freud/" in f:
            return self._local
        return None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


class CallerThreads:
    """Runs several callables on real threads of which exactly one runs at a time.

    A thread is parked at every line event in freud's Python files (the points where
    the interpreter may switch threads between its bytecodes); which one continues is
    drawn from rng. A call into the extension modules holds the interpreter's lock from
    beginning to end, so it is one step.
    """

    def __init__(self, rng, trace=None, max_steps=200000, burst=0):
        self.rng = rng
        self.steps = 0
        self.switches = 0
        self.max_steps = max_steps
        self.burst = burst
        self.trace_log = trace if trace is not None else []
        self.script = None

    def run(self, fns):
        n = len(fns)
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.res = [None] * n
        self.exc = [None] * n
        self.back = threading.Semaphore(0)
        ths = []
        for i, f in enumerate(fns):
            t = threading.Thread(target=self._body, args=(i, f), daemon=True)
            ths.append(t)
            t.start()
        last = -1
        hold = 0
        while any(self.alive):
            live = [i for i in range(n) if self.alive[i]]
            if hold > 0 and last in live:
                i = last
                hold -= 1
            else:
                i = live[self.rng.randrange(len(live))] if len(live) > 1 else live[0]
                if self.burst:
                    hold = self.rng.randrange(self.burst)
            if i != last:
                self.switches += 1
            last = i
            self.steps += 1
            self.gates[i].release()
            self.back.acquire()
            if self.steps > self.max_steps:
                raise RuntimeError("caller threads: step budget exhausted")
        for t in ths:
            t.join()
        return self.res, self.exc

    def _body(self, i, fn):
        self.gates[i].acquire()

        def local(frame, event, arg):
            if event == "line":
                self.back.release()
                self.gates[i].acquire()
            return local

        def glob(frame, event, arg):
            return local if "/pkg/freud/" in frame.f_code.co_filename else None

        sys.settrace(glob)
        try:
            self.res[i] = fn()
        except BaseException as e:  # noqa: BLE001
            self.exc[i] = e
        finally:
            sys.settrace(None)
            self.alive[i] = False
            self.back.release()
