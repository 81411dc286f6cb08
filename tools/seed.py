"""Builds and validates planted changes: tools/seed.py SPEC.py [id...]
SPEC.py defines SEEDS: dicts id, property, needs, breaks, edits [(file, old, new[, occurrence])], demo (C++), kind (eig|pcl|cv|gtsam)."""
import json, os, subprocess, sys, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
FL = {
    "eig": "-I eigen_ext/include -isystem /usr/include/eigen3",
    "pcl": "-I eigen_ext/include -I pointcloud_tools/include -I serpent/include -isystem /usr/include/eigen3 -isystem /usr/include/pcl-1.14 -DPCL_NO_PRECOMPILE -include /opt/vp/cmake/pcl_shared_ptr_compat.hpp pointcloud_tools/src/point_types.cpp",
    "cv": "-I serpent/include -isystem /usr/include/opencv4 -include functional -include stdexcept serpent/src/front_end/stereo/window_functions.cpp serpent/src/front_end/stereo/stereo_cost_functions.cpp serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp serpent/src/front_end/stereo/match_filters.cpp",
    "gtsam": "-I eigen_gtsam/include -isystem /usr/include/eigen3 eigen_gtsam/src/geometry.cpp",
}
LIB = {"eig": "", "pcl": "-lpcl_common -lpcl_kdtree -lpcl_search -lpcl_filters -lpcl_features -llz4 -lboost_system", "cv": "-lopencv_core -lopencv_features2d -lopencv_video", "gtsam": "-lgtsam -lboost_serialization"}
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    for s in seeds:
        if sys.argv[2:] and s["id"] not in sys.argv[2:]:
            continue
        W = "/tmp/seedw"
        shutil.rmtree(W, ignore_errors=True)
        sh("cp -a %s %s" % (R, W))
        for f, old, new, *n in s["edits"]:
            t = open(os.path.join(W, f)).read()
            c = t.count(old)
            assert c and (c == 1 or n), (s["id"], f, old, c)
            i = -1
            for _ in range((n[0] if n else 0) + 1):
                i = t.index(old, i + 1)
            open(os.path.join(W, f), "w").write(t[:i] + new + t[i + len(old):])
        D = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(D, ignore_errors=True)
        os.makedirs(D)
        open(D + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
        open(D + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
        open(D + "/demo.sh", "w").write("""#!/bin/bash
# Runs in the repository root; exits 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w %s %s "$D/demo.cpp" -o "$T/demo" %s && "$T/demo"
""" % (FL[s["kind"]], s.get("extra", ""), LIB[s["kind"]]))
        os.chmod(D + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(D + "/meta.json", "w"), indent=1)
        ok = sh("bash %s/demo.sh" % D, cwd=R)
        sh("git apply %s/patch.diff" % D, cwd=R)
        try:
            bad = sh("bash %s/demo.sh" % D, cwd=R)
            b = sh("bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1")
            sh("bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1")
            t = json.load(open("/tmp/seed_t.json"))
        finally:
            sh("git checkout -- .", cwd=R)
        base = json.load(open("/opt/vp/BASELINE.json"))
        names = base.get("stable") or base.get("passed") or base.get("tests") or base
        print(s["id"], "clean", ok.returncode, "patched", bad.returncode, "build", b.returncode, "tests", {k: (len(v) if hasattr(v, "__len__") else v) for k, v in t.items()} if isinstance(t, dict) else t, flush=True)
        if ok.returncode or not bad.returncode or b.returncode:
            print(ok.stdout[-1500:], bad.stdout[-1500:])
    shutil.rmtree("/tmp/seedw", ignore_errors=True)
    sh("bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1")


main()
