"""The monitors that decide each property: property -> runs [(monitor, variant, args)]."""
HANG = ["--hang", "25"]
CHECKS = {
    "C01": {"runs": [("c01", "asan"), ("c01", "tsan")]},
    "C02": {"runs": [("c02", "asan", HANG)]},
    "C03": {"runs": [("c03", "asan")]},
    "C04": {"runs": [("c04", "asan")], "compiles": True},
    "C05": {"runs": [("c05", "asan")], "compiles": True},
    "B01": {"runs": [("b01", "asan", ["work"] + HANG), ("b01", "tsan", ["work"] + HANG)]},
    "B02": {"runs": [("b01", "tsan", ["stop"] + HANG), ("b01", "asan", ["stop"] + HANG)]},
    "B03": {"runs": [("b03", "asan")]},
    "T01": {"runs": [("t01", "asan")]},
    "T02": {"runs": [("t02", "tsan", HANG), ("t02", "asan", HANG)]},
    "T03": {"runs": [("t03", "asan"), ("t03ns", "asan")], "compiles": True},
    "T04": {"runs": [("t04", "asan")]},
    "E01": {"runs": [("e01", "asan")]},
    "E02": {"runs": [("e02", "asan")]},
    "E03": {"runs": [("e03", "asan")]},
    "E04": {"runs": [("e04", "asan")]},
    "K01": {"runs": [("k01", "asan", ["representations"])]},
    "K02": {"runs": [("k01", "asan", ["quaternions"])]},
    "K03": {"runs": [("k03", "asan", ["transformations"])]},
    "K05": {"runs": [("k03", "asan", ["points"])]},
    "K04": {"runs": [("k04", "asan")]},
    "K07": {"runs": [("k07", "asan", [])]},
    "K06": {"runs": [("k06", "asan")]},
    "Y01": {"runs": [("y01", "asan")]},
    "Y02": {"runs": [("y02", "asan")]},
    "G01": {"runs": [("g01", "asan", ["values"] + HANG)]},
    "G02": {"runs": [("g01", "asan", ["resources"] + HANG)]},
    "O01": {"runs": [("o01", "asan")]},
    "F01": {"runs": [("f01", "asan")]},
    "M01": {"runs": [("m01", "asan", ["roundtrip"])]},
    "M02": {"runs": [("m01", "asan", ["damage"] + HANG)]},
    "M03": {"runs": [("m01", "asan", ["model"])]},
    "M04": {"runs": [("m01", "asan", ["fault"])]},
    "P01": {"runs": [("p01", "asan", ["tree"])]},
    "P02": {"runs": [("p01", "asan", ["files"] + HANG)]},
    "P03": {"runs": [("p01", "asan", ["loader"] + HANG)]},
    "V01": {"runs": [("v01", "asan", ["layers"] + HANG)]},
    "V02": {"runs": [("v01", "asan", ["prefixes"] + HANG)]},
    "V03": {"runs": [("v01", "asan", ["handles"] + HANG)]},
    "L01": {"runs": [("l01", "asan", ["history"] + HANG), ("l01", "tsan", ["race"] + HANG)]},
    "L02": {"runs": [("l01", "asan", ["deliver"] + HANG), ("l01", "tsan", ["threads"] + HANG)], "compiles": True},
    "L03": {"runs": [("l01", "tsan", ["reconfig"] + HANG), ("l01", "asan", ["reconfig"] + HANG)]},
    "R01": {"runs": [("r01", "asan")]},
}

CHECKS["S02"] = {"runs": [("s02", "tsan", HANG), ("s02", "asan", HANG)]}
# S01: what the sanitizers, memcheck and the leak probes report while every monitor runs, whatever the monitors themselves find.
_all = sorted({(r[0], r[1], tuple(a for a in (r[2] if len(r) > 2 else []) if a not in HANG)) for c in CHECKS.values() for r in c["runs"]})
CHECKS["S01"] = {
    "runs": [(m, "memcheck", list(a) + ["--scale", "0.01"]) for m, v, a in _all if v == "asan" and m not in ("t04",)]
            + [(m, v, list(a) + ["--scale", "0.2", "--hang", "200"]) for m, v, a in _all],
    "parallel": 8, "thorough_budget": 400, "only": "(asan|tsan|ubsan|memcheck|leak|crash|memory)/",
}
