"""Development tool, not a check: runs every check against every planted change, in scratch copies (writes OUT.json)."""
import json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
out = Path(sys.argv[1])
ids = sys.argv[2:] or sorted(p.name for p in (ROOT / "seeded").iterdir())
CH = [f"C{i:02d}" for i in range(1, 27)]


def one(sid):
    with tempfile.TemporaryDirectory(prefix="matrix-") as d:
        subprocess.run(["cp", "-a", "/repo", d + "/r"], check=True)
        subprocess.run(["git", "-C", d + "/r", "apply", str(ROOT / "seeded" / sid / "patch.diff")], check=True)
        res = {}
        for c in CH:
            env = dict(os.environ, ATGMON_SRC=d + "/r/src", ATGMON_EVID=d + "/ev", ATGMON_WORKERS="2")
            res[c] = subprocess.run(["bash", str(ROOT / "run.sh"), c], env=env, capture_output=True, text=True).returncode
    print(sid, [c for c in CH if res[c] == 1], [c for c in CH if res[c] > 1], flush=True)
    return sid, res


with ThreadPoolExecutor(4) as ex:
    out.write_text(json.dumps(dict(ex.map(one, ids)), indent=1))
