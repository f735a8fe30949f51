"""A second process running a private copy of the package, so that its default data folder is a scratch one."""

import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

import lightcurvelynx

WORKER = r"""
import json, sys, logging
logging.disable(logging.CRITICAL)
import lightcurvelynx
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.obstable.opsim import OpSim
out = sys.stdout
sys.stdout = sys.stderr
for line in sys.stdin:
    op = json.loads(line)
    try:
        if op["op"] == "where":
            res = lightcurvelynx.__file__
        elif op["op"] == "opsim":
            t = OpSim.from_url(op["url"], **op["kw"])
            res = {"n": len(t), "ra": [float(x) for x in t["ra"]], "time": [float(x) for x in t["time"]], "zp": [float(x) for x in t["zp"]], "filter": [str(x) for x in t["filter"]]}
        elif op["op"] == "preset":
            g = PassbandGroup.from_preset(op["name"], **op["kw"])
            res = {p.full_name: p.processed_transmission_table.tolist() for p in g}
        elif op["op"] == "file":
            p = Passband.from_file(op["survey"], op["name"], **op["kw"])
            res = {p.full_name: p.processed_transmission_table.tolist()}
        elif op["op"] == "svo":
            p = Passband.from_svo(op["name"], **op["kw"])
            res = {p.full_name: p.processed_transmission_table.tolist()}
        ans = {"ok": res}
    except Exception as err:
        ans = {"error": type(err).__name__ + ": " + str(err)[:200]}
    print(json.dumps(ans), file=out, flush=True)
"""


class Away:
    def __init__(self, root):
        self.root = Path(root)
        shutil.copytree(Path(lightcurvelynx.__file__).parent, self.root / "src" / "lightcurvelynx", ignore=shutil.ignore_patterns("__pycache__"))
        self.data = self.root / "data"
        env = {**os.environ, "PYTHONPATH": str(self.root / "src"), "HOME": str(self.root), "XDG_CACHE_HOME": str(self.root / "cache"), "NO_PROXY": "127.0.0.1,localhost", "no_proxy": "127.0.0.1,localhost"}
        self.proc = subprocess.Popen([sys.executable, "-c", WORKER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=self.root)
        place = self.ask(op="where").get("ok", "")
        if not str(place).startswith(str(self.root)):
            self.close()
            raise RuntimeError(f"the copy was not imported: {place}")

    def ask(self, **op):
        self.proc.stdin.write(json.dumps(op) + "\n")
        self.proc.stdin.flush()
        return json.loads(self.proc.stdout.readline())

    def close(self):
        self.proc.stdin.close()
        try:
            self.proc.wait(20)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
        self.proc.stdout.close()
