"""Runs harnesses on the real, untransformed code (one request per line)."""
import io
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")
out = os.fdopen(os.dup(1), "w")
sys.stdout = io.StringIO()  # console output of the code under test is not part of the protocol

sys.path = [p for p in sys.path if os.path.basename(p) != "psx"]
from psx.prove import native_run  # noqa: E402

import importlib  # noqa: E402

for line in sys.stdin:
    q = json.loads(line)
    # every run starts from the freshly imported code: nothing is left behind by earlier ones
    try:
        importlib.import_module(q["harness"].split(":")[0])
    except BaseException:  # noqa: B902
        pass
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        try:
            r = native_run(q["harness"], q["params"], q["model"])
        except BaseException as e:  # noqa: B902
            r = {"error": f"{type(e).__name__}: {e}"}
        with os.fdopen(wr, "w") as f:
            f.write(json.dumps(r))
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        text = f.read()
    os.waitpid(pid, 0)
    out.write((text or json.dumps({"error": "native process died"})) + "\n")
    out.flush()
