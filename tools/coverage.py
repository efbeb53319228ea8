#!/opt/venv/bin/python
"""coverage.py [RUNS] [PROP ...]: lines of pyNTM that no simulated run of the given checks executes
(a help for finding what the generators do not reach; no check depends on it)."""

import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def one(prop, runs, out):
    seen = set()
    repo = os.path.realpath(os.environ.get("NTM_REPO", "/repo")) + "/pyNTM/"
    mon = sys.monitoring
    mon.use_tool_id(3, "coverage")

    def line(code, no):
        if code.co_filename.startswith(repo):
            seen.add((os.path.basename(code.co_filename), no))
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    from sim import runner
    mod = runner.load(prop)
    stats = runner.Stats()
    for i in range(runs):
        try:
            runner.run_plan(mod, runner.make_plan(mod, prop, 1, i, "quick"), stats)
        except BaseException as e:
            print(prop, i, type(e).__name__, file=sys.stderr)
    with open(out, "w") as f:
        for name, no in sorted(seen):
            f.write("{} {}\n".format(name, no))


def code_lines(co):
    for _, _, no in co.co_lines():
        if no:
            yield no
    for c in co.co_consts:
        if hasattr(c, "co_lines"):
            yield from code_lines(c)


def main():
    if sys.argv[1] == "--one":
        return one(sys.argv[2], int(sys.argv[3]), sys.argv[4])
    runs = sys.argv[1]
    props = sys.argv[2:] or ["P{:02d}".format(i) for i in range(1, 22)]
    ps = []
    for p in props:
        ps.append((p, subprocess.Popen([sys.executable, __file__, "--one", p, runs, "/tmp/cov_" + p],
                                       env=dict(os.environ, PYTHONHASHSEED="1"), cwd=HERE)))
    seen = set()
    for p, x in ps:
        x.wait()
        with open("/tmp/cov_" + p) as f:
            for ln in f:
                a, b = ln.split()
                seen.add((a, int(b)))
        os.unlink("/tmp/cov_" + p)
    repo = os.environ.get("NTM_REPO", "/repo") + "/pyNTM"
    for name in sorted(os.listdir(repo)):
        if not name.endswith(".py"):
            continue
        src = open(os.path.join(repo, name)).read()
        lines = set(code_lines(compile(src, name, "exec")))
        missing = sorted(n for n in lines if (name, n) not in seen)
        text = src.splitlines()
        print("== {}: {} of {} lines".format(name, len(lines) - len(missing), len(lines)))
        for n in missing:
            print("   {:5d} {}".format(n, text[n - 1]))


if __name__ == "__main__":
    main()
