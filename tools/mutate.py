#!/usr/bin/env python3
"""mutate.py <worker> <seed> <count> <prefix>...  -- mutation testing of the checks.

Changes one token of a source file in a scratch clone of /repo and runs the (quick) checks of the
properties that file belongs to, until one of them reports it. One line per mutant in
/tmp/mut/<worker>.log: KILLED / NOBUILD / SURVIVED file:line old -> new.
"""
import os, random, re, subprocess, sys
FILES = {
 "sm_common/include/sm/hash_id.hpp": "C01", "sm_common/src/hash_id.cpp": "C01", "sm_common/include/sm/Id.hpp": "C01",
 "sm_common/include/sm/string_routines.hpp": "C02", "sm_common/include/sm/progress_info.hpp": "C02", "sm_common/src/progress_info.cpp": "C02",
 "sm_common/include/sm/numerical_comparisons.hpp": "C03", "sm_common/include/sm/maths.hpp": "C03", "sm_common/include/sm/round.hpp": "C03",
 "sm_common/include/sm/assert_macros.hpp": "C04", "sm_common/include/sm/source_file_pos.hpp": "C04", "sm_eigen/include/sm/eigen/assert_macros.hpp": "C04",
 "sm_common/include/sm/serialization_macros.hpp": "C05", "sm_common/include/sm/is_binary_equal.hpp": "C05", "sm_common/include/sm/typetraits.hpp": "C05",
 "sm_boost/src/JobQueue.cpp": "B01 B02", "sm_boost/include/sm/boost/implementation/JobQueue.hpp": "B01 B02",
 "sm_boost/include/sm/boost/serialization.hpp": "B03", "sm_boost/include/sm/boost/ptime.hpp": "T03",
 "sm_random/src/random.cpp": "R01",
 "sm_timing/src/Timer.cpp": "T01 T02", "sm_timing/include/sm/timing/Timer.hpp": "T01 T02",
 "sm_timing/src/NsecTimeUtilities.cpp": "T03", "sm_timing/include/sm/timing/NsecTimeUtilities.hpp": "T03",
 "sm_timing/include/sm/timing/TimestampCorrector.hpp": "T04", "sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp": "T04",
 "sm_eigen/include/sm/eigen/serialization.hpp": "E01", "sm_eigen/include/sm/eigen/NumericalDiff.hpp": "E02",
 "sm_eigen/include/sm/eigen/matrix_sqrt.hpp": "E03", "sm_eigen/include/sm/eigen/property_tree.hpp": "E03", "sm_eigen/src/random.cpp": "R01",
 "sm_matrix_archive/src/MatrixArchive.cpp": "M01 M02 M03 M04", "sm_matrix_archive/include/sm/MatrixArchive.hpp": "M01 M02 M03 M04", "sm_matrix_archive/src/lsma.cpp": "M01",
 "sm_property_tree/src/PropertyTree.cpp": "P01", "sm_property_tree/include/sm/PropertyTree.hpp": "P01",
 "sm_property_tree/src/BoostPropertyTree.cpp": "P01 P02", "sm_property_tree/src/BoostPropertyTreeImplementation.cpp": "P01 P02",
 "sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp": "P01 P02", "sm_property_tree/src/BoostPropertyTreeLoader.cpp": "P03",
 "sm_property_tree/src/BoostPropertyTreeSupport.cpp": "P03 P02",
 "sm_value_store/src/ValueStore.cpp": "V01 V02 V03", "sm_value_store/include/sm/value_store/ValueStore.hpp": "V03 V01 V02",
 "sm_value_store/src/PropertyTreeValueStore.cpp": "V03 V01 V02", "sm_value_store/src/PrefixedValueStore.cpp": "V02 V03",
 "sm_value_store/src/VerboseValueStore.cpp": "V03 V01", "sm_value_store/include/sm/value_store/LayeredValueStore.hpp": "V01",
 "sm_value_store/include/sm/value_store/PropertyTreeValueStore.hpp": "V03 V01 V02", "sm_value_store/include/sm/value_store/VerboseValueStore.hpp": "V03",
 "sm_logging/src/LoggingGlobals.cpp": "L01 L02 L03", "sm_logging/src/Formatter.cpp": "L02 L01", "sm_logging/src/Levels.cpp": "L01 L02",
 "sm_logging/src/Logger.cpp": "L02 L01", "sm_logging/src/StdOutLogger.cpp": "L02 L01", "sm_logging/include/sm/logging/macros.h": "L01 L02",
 "sm_logging/include/sm/logging/Tokens.hpp": "L02", "sm_logging/include/sm/logging/console.hpp": "L01 L02", "sm_logging/include/sm/logging/LoggingGlobals.hpp": "L01 L02 L03",
 "sm_logging/include/sm/logging/macros_generated.hpp": "L01 L02", "sm_logging/include/sm/logging/assert.h": "L02", "sm_logging/src/gettimeofday.hpp": "L02",
 "sm_logging/include/sm/logging/LoggingEvent.hpp": "L02", "sm_logging/src/LoggingEvent.cpp": "L02",
 "sm_kinematics/src/rotations.cpp": "K01 K04", "sm_kinematics/include/sm/kinematics/rotations.hpp": "K01 K04",
 "sm_kinematics/src/EulerAnglesZYX.cpp": "K01 K04", "sm_kinematics/src/EulerAnglesYawPitchRoll.cpp": "K01 K04", "sm_kinematics/src/EulerAnglesZXY.cpp": "K01 K04",
 "sm_kinematics/src/EulerRodriguez.cpp": "K01 K04", "sm_kinematics/src/RotationVector.cpp": "K01 K04",
 "sm_kinematics/src/quaternion_algebra.cpp": "K02 K04 K01", "sm_kinematics/src/transformations.cpp": "K04 K03", "sm_kinematics/include/sm/kinematics/transformations.hpp": "K04 K03",
 "sm_kinematics/src/Transformation.cpp": "K03 K04", "sm_kinematics/include/sm/kinematics/Transformation.hpp": "K03 K04",
 "sm_kinematics/src/UncertainTransformation.cpp": "K06 K03", "sm_kinematics/include/sm/kinematics/UncertainTransformation.hpp": "K06 K03",
 "sm_kinematics/src/HomogeneousPoint.cpp": "K05 K06 K04", "sm_kinematics/include/sm/kinematics/HomogeneousPoint.hpp": "K05 K04",
 "sm_kinematics/src/UncertainHomogeneousPoint.cpp": "K06 K05", "sm_kinematics/include/sm/kinematics/UncertainHomogeneousPoint.hpp": "K06 K05",
 "sm_kinematics/include/sm/kinematics/implementation/UncertainVector.hpp": "K06", "sm_kinematics/src/homogeneous_coordinates.cpp": "K05 K04",
 "sm_kinematics/src/three_point_methods.cpp": "K07",
 "sm_python/src/Logging.cpp": "Y02", "sm_python/src/Timing.cpp": "Y02", "sm_python/src/exportEigen.cpp": "Y01", "sm_python/src/exportHomogeneousPoint.cpp": "Y01",
 "sm_python/src/exportMatrixArchive.cpp": "Y02", "sm_python/src/exportNsecTime.cpp": "Y01", "sm_python/src/exportPropertyTree.cpp": "Y02",
 "sm_python/src/exportTimestampCorrector.cpp": "Y02", "sm_python/src/exportTransformation.cpp": "Y01 Y02", "sm_python/src/exportUncertainVector.cpp": "Y01",
 "sm_python/src/exportValueStoreRef.cpp": "Y02", "sm_python/src/export_eigen_property_tree.cpp": "Y01", "sm_python/src/export_homogeneous.cpp": "Y01",
 "sm_python/src/export_kinematics_property_tree.cpp": "Y01", "sm_python/src/export_quaternion_algebra.cpp": "Y01", "sm_python/src/export_rotational_kinematics.cpp": "Y01",
 "sm_python/src/export_rotations.cpp": "Y01", "sm_python/src/export_transformations.cpp": "Y01", "sm_python/src/random.cpp": "Y01",
 "sm_matlab/src/Engine.cpp": "G01 G02", "sm_matlab/include/sm/matlab/Engine.hpp": "G01 G02",
 "sm_opencv/include/sm/opencv/serialization.hpp": "O01 F01",
 "sm_boost/include/sm/boost/JobQueue.hpp": "B01 B02", "sm_common/include/sm/aligned_allocation.h": "E03", "sm_eigen/include/sm/eigen/static_assert.hpp": "E03", "sm_eigen/include/sm/eigen/traits.hpp": "E03 E01",
 "sm_kinematics/include/sm/kinematics/EulerAnglesZXY.h": "K01 K04", "sm_kinematics/include/sm/kinematics/RotationalKinematics.hpp": "K01 K04", "sm_kinematics/include/sm/kinematics/UncertainVector.hpp": "K06",
 "sm_kinematics/include/sm/kinematics/homogeneous_coordinates.hpp": "K05 K04", "sm_kinematics/include/sm/kinematics/quaternion_algebra.hpp": "K02 K04",
 "sm_property_tree/include/sm/BoostPropertyTree.hpp": "P01 P02", "sm_property_tree/include/sm/PropertyTreeImplementation.hpp": "P01", "sm_value_store/include/sm/value_store/PrefixedValueStore.hpp": "V02",
 "sm_logging/include/sm/logging/Levels.hpp": "L01 L02", "sm_logging/include/sm/logging/Formatter.hpp": "L02", "sm_logging/include/sm/logging/LogLocation.hpp": "L01",
 "sm_python/include/sm/python/Id.hpp": "Y01", "sm_python/include/sm/python/stl_converters.hpp": "Y01 Y02", "sm_python/src/module.cpp": "Y01 Y02",
 "sm_python/include/sm/python/boost_serialization_pickle.hpp": "Y02",
}
RULES = [
 (r"(?<![<>=!\-+*/&|^:])<=(?!=)", ["<"]), (r"(?<![<>\-=])>=(?!=)", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
 (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
 (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r"\*(?=[a-z(])", ["/"]), (r" / ", [" * "]), (r"\+=", ["-="]), (r"-=", ["+="]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"!(?=[a-zA-Z(])", [""]),
 (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"(?<![\w.])3(?![\w.])", ["2"]),
 (r"\b1\.0\b", ["1.1"]), (r"\b0\.5\b", ["0.45"]), (r"\b2\.0\b", ["2.1"]), (r"1e-(\d+)", ["1e-3"]),
 (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]),
 (r"\.transpose\(\)", [""]), (r"\.inverse\(\)", [""]), (r"\bbreak;", [";"]), (r"\belse\b(?! if)", ["if(true)"]),
 (r"(?<=[=(,] )-(?=[a-zA-Z0-9(])", [""]), (r"(?<=return )-", [""]), (r"\+\+(?=\w)", ["--"]), (r"\breturn (?!\w*;)([^;]+);", None),
]
STMT = re.compile(r"^(\s+)((?!return|if|for|while|else|case|throw|typedef|using|namespace|class|struct|public|private|template|const |static |int |double |bool |size_t |std::string |Eigen::)[\w:.\->\[\]*]+(\(.*\)|\s*[-+*/]?=[^=].*|\+\+));\s*$")
def sites(path):
    out = []
    incomment = False
    for n, l in enumerate(open(path, errors="replace").read().split("\n")):
        code = l
        if incomment:
            if "*/" in code: incomment = False
            continue
        if re.match(r"\s*(//|#include|#pragma|#ifndef|#endif|namespace|template|using|\*)", code): continue
        if "/*" in code and "*/" not in code: incomment = True; code = code.split("/*")[0]
        code = code.split("//")[0]
        for pat, reps in RULES:
            if reps is None: continue
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                for r in reps: out.append((n, m.start(), m.end(), r))
        m = STMT.match(code)
        if m: out.append((n, m.start(2), m.end(2), ""))
        m = re.match(r"^\s*(\.(?:def|value|init)\(.*\))\s*$", code)
        if m: out.append((n, m.start(1), m.end(1), ""))
    return out
def main():
    worker, seed, count, prefixes = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    wt = "/tmp/mut/%s-repo" % worker
    if not os.path.exists(wt): subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", wt])
    env = dict(os.environ, VERIF_REPO=wt, VERIF_BUILD="/tmp/mut/%s-bld" % worker, VERIF_EVIDENCE="/tmp/mut/%s-ev" % worker)
    rnd = random.Random(seed)
    pool = [(f, s) for f in FILES if any(f.startswith(p) for p in prefixes) for s in sites(wt + "/" + f)]
    rnd.shuffle(pool)
    log = open("/tmp/mut/%s.log" % worker, "a")
    for f, (n, a, b, r) in pool[:count]:
        src = open(wt + "/" + f, errors="surrogateescape").read().split("\n")
        old = src[n]
        src[n] = old[:a] + r + old[b:]
        open(wt + "/" + f, "w", errors="surrogateescape").write("\n".join(src))
        verdict = "SURVIVED"
        for p in FILES[f].split():
            try:
                q = subprocess.run(["python3", os.environ.get("MUT_VERIF", "/verif") + "/check.py", p, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            except subprocess.TimeoutExpired:
                verdict = "TIMEOUT " + p; break
            if q.returncode == 1: verdict = "KILLED " + p; break
            if q.returncode != 0:
                verdict = "NOBUILD" if "build failed" in q.stdout or "error:" in q.stdout else "NOANSWER " + p; break
        log.write("%s %s:%d  %s  ->  %s\n" % (verdict, f, n + 1, old.strip(), src[n].strip()))
        log.flush()
        subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
main()
