"""development aid: python3 tools/mkseed.py <id> : check a seeded bug in a scratch copy
(applies patch.diff, runs the stable tests and demo.sh with and without it)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd):
    env = dict(os.environ, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX="/nonexistent")
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=env, timeout=300)


def main(sid):
    d = os.path.join(HERE, "seeded", sid)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        w = os.path.join(tmp, "repo")
        shutil.copytree("/repo", w, symlinks=True)
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo)
        r0 = run(["bash", os.path.join(demo, "demo.sh")], w)
        a = run(["git", "apply", os.path.join(d, "patch.diff")], w)
        if a.returncode:
            print(sid, "does not apply", a.stderr)
            return 1
        t = run(["python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "tests"], w)
        r1 = run(["bash", os.path.join(demo, "demo.sh")], w)
        ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
        print(sid, "OK" if ok else "BAD", "demo clean", r0.returncode, "demo patched", r1.returncode, "tests",
              t.stdout.strip().splitlines()[-1:], (r0.stdout + r0.stderr)[-300:] if r0.returncode else "",
              json.load(open(os.path.join(d, "meta.json")))["property"])
        return 0 if ok else 1
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    sys.exit(max([main(i) for i in ids] or [0]))
