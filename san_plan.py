#!/usr/bin/env python3
"""Writes san_plan.txt: for every scenario the largest bounds on the deviations of an execution that C27
can afford in its quick and thorough tiers.  Run by hand after the scenarios have changed."""
import os, shutil, signal, subprocess, sys, tempfile, time
import run

QUICK, THOROUGH = 0.7, 4.0     # seconds per scenario on 8 cores


def main():
    d = tempfile.mkdtemp(prefix="ellmc_plan_")
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Nehalem")
    rows = []
    if len(sys.argv) > 1:                                  # lines of an interrupted run
        for line in open(sys.argv[1]):
            p, q, k, name = line.rstrip("\n").split(" ", 3)
            rows.append((p, int(q), int(k), name))
    done = {(r[0], r[3]) for r in rows}
    try:
        if not run.build_sanitized(d):
            return 2
        for pid in run.SANITIZED:
            exe = d + "/" + pid
            known = [a for k in run.known_keys(pid) for a in ("--known", k)]
            for name in subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=run.asan(env, pid)).stdout.splitlines():
                if (pid, name) in done:
                    continue
                best, last = [0, 0], None
                for k in [0, 1, 2, 3, 4, 5, 6, 8, 12, 1000000]:
                    t = time.time()
                    p = subprocess.Popen([exe, "--only", name, "--deviations", str(k)] + known, env=run.asan(env, pid),
                                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                         errors="replace", start_new_session=True)
                    try:
                        out = p.communicate(timeout=THOROUGH if k else 60)[0]
                    except subprocess.TimeoutExpired:
                        os.killpg(p.pid, signal.SIGKILL)    # the workers, too
                        p.communicate()
                        break
                    t = time.time() - t
                    if p.returncode != 0:
                        print("FAILED", pid, name, k, out[-3000:])
                        return 1
                    n = out.split("executions=")[1].split()[0]
                    if k == 0 and t > 4 * QUICK:
                        best[0] = -1                    # not at all
                    elif k == 0 or t <= QUICK:
                        best[0] = k
                    best[1] = k
                    if n == last and k > 3:
                        best = [1000000 if best[0] == k else best[0], 1000000]
                        break
                    last = n
                rows.append((pid, best[0], best[1], name))
                print(*rows[-1])
                sys.stdout.flush()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    with open(run.HERE + "/san_plan.txt", "w") as f:
        for r in rows:
            f.write("%s %d %d %s\n" % r)
    return 0


if __name__ == "__main__":
    sys.exit(main())
