"""Zygote worker: imports the code under test once, then forks one child per
job, so every simulated run starts from the same freshly imported process.

Protocol: one JSON job per line on stdin, one JSON result per line on the
original stdout (fd dup'ed away so the code under test cannot touch it).
job: {"id", "params", "seeds": [..]} or {"id", "params", "prefix": [..]}.
"""
import importlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


def run_one(mod, params, seed=None, prefix=None, verbose=False):
    from dst.core import Choices, Ctx, HarnessError, Overrun, Violation

    c = Choices(seed=seed, prefix=prefix)
    ctx = Ctx(c, verbose=verbose, params=params)
    res = {"seed": seed, "status": "ok"}
    try:
        mod.run(ctx)
    except Violation as v:
        res.update(status="violation", kind=v.kind, message=v.message[:4000], key=v.key)
        ctx.log("VIOLATION", v.kind)
    except Overrun:
        res.update(status="overrun")
    except HarnessError as e:
        res.update(status="harness", message="".join(traceback.format_exception(e))[-4000:])
    except BaseException as e:  # noqa: B902
        res.update(status="harness", message="".join(traceback.format_exception(e))[-6000:])
    res.update(
        digest=ctx.digest(), lines=ctx.log_lines, faults=ctx.faults,
        probes=ctx.probes, counters=ctx.counters, sim_time=ctx.sim_time,
        nontrivial=ctx.nontrivial, known=ctx.known, nchoices=len(c.values),
    )
    return res, c, ctx


def child_main(mod, job, wfd, cpu_limit):
    out = {"id": job["id"], "runs": [], "states": []}
    states = set()
    try:
        seeds = job.get("seeds")
        todo = [(s, None) for s in seeds] if seeds is not None else [(None, job["prefix"])]
        detail = job.get("detail", False)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu_limit * (1 + len(job.get("before") or [])), resource.getrlimit(resource.RLIMIT_CPU)[1]))
        for seed in job.get("before") or []:
            run_one(mod, job["params"], seed)
        for seed, prefix in todo:
            used = resource.getrusage(resource.RUSAGE_SELF)
            now = int(used.ru_utime + used.ru_stime) + 1
            resource.setrlimit(resource.RLIMIT_CPU, (now + cpu_limit, resource.getrlimit(resource.RLIMIT_CPU)[1]))
            pickle_header = {"start": seed}
            os.write(wfd, pickle_frame(pickle_header))
            res, c, ctx = run_one(mod, job["params"], seed, prefix, verbose=detail)
            states |= ctx.states
            if ctx.sample is not None:
                res["sample"] = ctx.sample
            if res["status"] != "ok" or detail:
                res["choices"] = c.values
                res["spans"] = c.spans
                res["log"] = ctx.log_tail
            if res["nchoices"]:
                res["digest_states"] = len(ctx.states)
            out["runs"].append(res)
            if res["status"] == "violation":
                break
        out["states"] = [s.hex() for s in states]
    except BaseException as e:  # noqa: B902
        out["error"] = "".join(traceback.format_exception(e))[-4000:]
    os.write(wfd, b"")
    data = pickle_frame(out)
    pos = 0
    while pos < len(data):
        pos += os.write(wfd, data[pos:pos + 65536])
    os._exit(0)


def pickle_frame(obj):
    b = pickle.dumps(obj)
    return len(b).to_bytes(8, "big") + b


def run_job(mod, job, cpu_limit, wall_limit):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        signal.signal(signal.SIGXCPU, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setpgid(0, 0)
        child_main(mod, job, wfd, cpu_limit)
        os._exit(1)
    os.close(wfd)
    buf = b""
    started = None
    result = None
    deadline = time.monotonic() + wall_limit * max(1, len(job.get("seeds") or [1]))
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        r, _, _ = select.select([rfd], [], [], min(left, 5))
        if not r:
            continue
        chunk = os.read(rfd, 1 << 20)
        if not chunk:
            break
        buf += chunk
        while len(buf) >= 8:
            n = int.from_bytes(buf[:8], "big")
            if len(buf) < 8 + n:
                break
            obj = pickle.loads(buf[8:8 + n])
            buf = buf[8 + n:]
            if "start" in obj:
                started = obj["start"]
            else:
                result = obj
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if result is None:
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        cause = "wall" if timed_out else "cpu" if sig == signal.SIGXCPU else f"sig{sig}"
        result = {"id": job["id"], "runs": [], "states": [], "died": cause, "at_seed": started}
    return result


def main():
    modname = sys.argv[1]
    cpu_limit = int(sys.argv[2])
    wall_limit = int(sys.argv[3])
    env = json.loads(sys.argv[4])
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_STDERR"):
        os.dup2(devnull, 2)
    sys.path.insert(0, os.path.join(REPO, "src"))
    try:
        mod = importlib.import_module(modname)
        if hasattr(mod, "setup"):
            mod.setup(env)
        import ethereum
        here = os.path.dirname(os.path.dirname(os.path.abspath(ethereum.__file__)))
        if os.path.realpath(here) != os.path.realpath(os.path.join(REPO, "src")):
            raise RuntimeError(f"imported ethereum from {here}")
        out.write(json.dumps({"ready": True}) + "\n")
    except BaseException as e:  # noqa: B902
        out.write(json.dumps({"ready": False, "error": "".join(traceback.format_exception(e))[-4000:]}) + "\n")
        out.flush()
        return
    out.flush()
    for line in sys.stdin:
        if not line.strip():
            continue
        job = json.loads(line)
        res = run_job(mod, job, cpu_limit, wall_limit)
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
