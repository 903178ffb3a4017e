"""Entry point of the checks: build the package, run the check in a child, judge how it ended.

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Anything else is an error of the machinery.
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build  # noqa: E402

VERIF = os.path.dirname(HERE)
LIMIT = {"quick": 840, "thorough": 6 * 3600}


def parent(args):
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    work = tempfile.mkdtemp(prefix="verif-%s-" % args.property)
    start = time.time()
    try:
        pkg = os.path.join(work, "pkg")
        os.makedirs(pkg)
        try:
            info = build.make(pkg)
        except build.BuildError as err:
            print("ERROR the package does not build:\n%s" % err)
            return 2
        env = dict(os.environ, PYTHONPATH=pkg, VERIF_PKG=pkg, VERIF_WORK=work, VERIF_TIER=tier,
                   VERIF_BUILD=json.dumps(info), TMPDIR=work)
        env.setdefault("VERIF_SEED", "1")
        cmd = [sys.executable, os.path.abspath(__file__), args.property, "--child", "--tier", tier]
        if args.replay:
            cmd += ["--replay", os.path.abspath(args.replay)]
        proc = subprocess.Popen(cmd, env=env, cwd=work, start_new_session=True)
        hung = False
        try:
            code = proc.wait(timeout=max(60, LIMIT[tier] - (time.time() - start)))
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(proc.pid, signal.SIGKILL)
            code = proc.wait()
        finally:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
        if code in (0, 1):
            return code
        # a crash inside the code under test: the case it died on was noted before it was run
        current = os.path.join(work, "current.json")
        if (code < 0 and code != -signal.SIGKILL) or (hung and os.path.exists(current)):
            if os.path.exists(current):
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                replay = os.path.join(VERIF, "replays", "%s-crash.json" % args.property)
                shutil.copy(current, replay)
                print("the code under test %s" % ("never returned" if hung else "died with signal %d" % -code))
                print("VIOLATION property=%s replay=%s" % (args.property, replay))
                return 1
        print("ERROR check ended with status %s" % code)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def child(args):
    import core
    try:
        mod = importlib.import_module("checks." + args.property.lower())
        ctx = core.Context(args.property, args.tier, mod)
        return ctx.main(args.replay)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", choices=["quick", "thorough"])
    parser.add_argument("--replay")
    parser.add_argument("--child", action="store_true")
    args = parser.parse_args()
    code = child(args) if args.child else parent(args)
    sys.stdout.flush()
    if args.child:
        os._exit(code)  # do not wait for worker threads or pools
    sys.exit(code)
