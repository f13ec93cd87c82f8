"""Archives written by the original release (run with SKOPS_REPO pointing to it):
   SKOPS_REPO=/tmp/base /opt/venv/bin/python tools/mk_golden.py
"""
import base64
import json
import lzma
import os
import sys
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ["SKOPS_REPO"], ROOT]
from pbt import boot  # noqa

boot.setup()

warnings.simplefilter("ignore")
import skops.io as sio  # noqa
from hypothesis import HealthCheck, given, seed, settings, Phase  # noqa

from pbt.checks import c08  # noqa
from pbt.cmp import diff  # noqa

assert sio.__file__.startswith(os.environ["SKOPS_REPO"])
specs = [o for o, p, old in c08.cases("quick") if p == 0 and old]


@seed(5)
@settings(max_examples=900, database=None, deadline=None, phases=[Phase.generate], suppress_health_check=list(HealthCheck))
@given(c08.obj_strategy())
def collect(o):
    specs.append(o)


collect()
out, seen, size = [], set(), 0
for o in specs:
    key = json.dumps(o)
    if key in seen or len(key) > 3000:
        continue
    seen.add(key)
    try:
        x = c08.make(o)
        data = sio.dumps(x)
        y = sio.loads(data, trusted=sio.get_untrusted_types(data=data))
        if diff(c08.make(o), x, layout=False) or diff(x, y, layout=False, strict_fill=False):
            continue
    except Exception:
        continue
    if len(data) > 12000:
        continue
    size += len(data)
    import io
    import zipfile

    buf = io.BytesIO()  # deflated: smaller
    with zipfile.ZipFile(io.BytesIO(data)) as a, zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as b:
        for i in a.infolist():
            b.writestr(i.filename, a.read(i))
    out.append([o, base64.b64encode(data if len(data) < len(buf.getvalue()) else buf.getvalue()).decode()])
    if len(out) >= 500:
        break
path = os.path.join(ROOT, "pbt", "golden.json.xz")
with lzma.open(path, "wt") as f:
    json.dump(out, f)
print(len(out), size, os.path.getsize(path))
