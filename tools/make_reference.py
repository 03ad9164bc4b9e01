"""
Reduce the recorded reference results of the repository to data/reference.npz.

Run once (output is committed): the checks don't depend on /repo/tests.
"""
import os

import numpy as np
import pandas as pd

SRC = "/repo/tests/test-data/"
FILES = {"TL": "two-layer-output/test_twolayer_defaults", "TL_efficacy": "two-layer-output/test_twolayer_plus_efficacy",
         "TL_state": "two-layer-output/test_twolayer_plus_state_dependence", "IRM": "impulse-response-output/test_impulse_response_defaults"}
out, erf, models = {}, {}, {}
for key, name in FILES.items():
    d = pd.read_csv(SRC + name + ".csv", float_precision="round_trip")
    cols = [c for c in d.columns if c[:1].isdigit()]
    assert [c[:4] for c in cols] == [str(y) for y in range(1750, 2501)] and all(c[4:] == "-01-01 00:00:00" for c in cols)
    for _, r in d.iterrows():
        v = r[cols].to_numpy(dtype=float)
        if r["variable"] == "Effective Radiative Forcing":
            if r["scenario"] in erf:
                same = np.array_equal(erf[r["scenario"]], v, equal_nan=True)
                assert same or np.nanmax(abs(erf[r["scenario"]] - v)) < 1e-9, (key, r["scenario"])
            else:
                erf[r["scenario"]] = v
                models[r["scenario"]] = r["model"]
        else:
            out["{}::{}::{}".format(key, r["scenario"], r["variable"])] = v
for s, v in erf.items():
    out["ERF::{}::{}".format(s, models[s])] = v
os.makedirs("/verif/data", exist_ok=True)
np.savez_compressed("/verif/data/reference.npz", **out)
print(len(out), os.path.getsize("/verif/data/reference.npz"))
