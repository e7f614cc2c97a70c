"""Runs concrete jobs on worker processes (real s2wav under /opt/venv/bin/python)."""
import json, os, queue, subprocess, threading, time, select, signal

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def env(stub):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             MKL_NUM_THREADS="1", RT_STUB="1" if stub else "0", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore",
             XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    e.pop("PYTHONPATH", None)
    return e


class Worker:
    def __init__(s, stub):
        s.stub = stub
        s.p = None

    def start(s):
        s.p = subprocess.Popen([PY, "-B", os.path.join(HERE, "worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               env=env(s.stub), cwd="/tmp", text=True, bufsize=1, start_new_session=True)
        r = s.read(120)
        if r is None:
            raise RuntimeError("worker did not start")
        return r

    def read(s, timeout):
        t1 = time.time() + timeout
        while True:
            r, _, _ = select.select([s.p.stdout], [], [], max(0.0, t1 - time.time()))
            if not r:
                return None
            line = s.p.stdout.readline()
            if not line:
                return None
            try:
                return json.loads(line)
            except ValueError:
                continue

    def run(s, job, timeout):
        if s.p is None:
            r = s.start()
            if not r.get("ready"):
                s.kill()
                return {"status": "fail", "msgs": ["import of s2wav fails"], "trace": r.get("error", ""), "import": True}
        try:
            s.p.stdin.write(json.dumps(job) + "\n")
            s.p.stdin.flush()
        except BrokenPipeError:
            s.kill()
            return {"status": "error", "msgs": ["worker ended"]}
        r = s.read(timeout)
        if r is None:
            dead = s.p.poll() is not None
            s.kill()
            return {"status": "error" if dead else "timeout", "msgs": ["worker %s" % ("ended" if dead else "timed out")]}
        return r

    def kill(s):
        if s.p is not None:
            try:
                os.killpg(s.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            s.p.wait()
            s.p = None


def run_jobs(jobs, stub=True, procs=8, timeout=120, deadline=None, stop=None):
    """-> list of results aligned with jobs (None: not run before the deadline)"""
    res = [None] * len(jobs)
    q = queue.Queue()
    for i in range(len(jobs)):
        q.put(i)

    def loop():
        w = Worker(stub)
        try:
            while True:
                if deadline is not None and time.time() > deadline:
                    return
                if stop is not None and stop(res):
                    return
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                try:
                    left = timeout if deadline is None else min(timeout, max(5, deadline + 60 - time.time()))
                    res[i] = w.run(jobs[i], left)
                    if jobs[i].get("fresh"):
                        w.kill()
                except Exception as e:
                    res[i] = {"status": "error", "msgs": [repr(e)]}
                    w.kill()
        finally:
            w.kill()
    ts = [threading.Thread(target=loop, daemon=True) for _ in range(min(procs, max(1, len(jobs))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res
