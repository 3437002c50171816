"""Build the C++ extensions of the current working tree into a scratch folder."""
import os
import subprocess
import sys
import sysconfig

SOURCES = {
    "line_encoding_cpp": ["dataset/pipeline/line_encoding_cpp/line_encoding.cpp"],
    "forbidden_point_cpp": ["dataset/pipeline/forbidden_point_cpp/forbidden_point.cpp",
                            "dataset/pipeline/forbidden_point_cpp/board.cpp"],
    "dataset_planner_cpp": ["dataset/planner_cpp/packed_shuffle.cpp"],
}


def build(H, *names):
    """Compile and put the folder first on sys.path."""
    import pybind11
    out = os.path.join(H.scratch, "ext")
    os.makedirs(out, exist_ok=True)
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    procs = []
    for n in names:
        srcs = [os.path.join(H.repo, s) for s in SOURCES[n]]
        # sources added next to the known ones belong to the extension as well
        for d in {os.path.dirname(s) for s in srcs}:
            srcs += sorted(os.path.join(d, f) for f in os.listdir(d)
                           if f.endswith(".cpp") and os.path.join(d, f) not in srcs)
        cmd = ["g++", "-O1", "-std=c++17", "-shared", "-fPIC", "-fvisibility=hidden",
               "-I" + pybind11.get_include(), "-I" + sysconfig.get_paths()["include"],
               *srcs, "-o", os.path.join(out, n + suffix)]
        procs.append((n, subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True)))
    for n, p in procs:
        _, err = p.communicate(timeout=300)
        if p.returncode:
            raise RuntimeError(f"{n} does not compile: {err[-1500:]}")
    sys.path.insert(0, out)
    for n in names:
        sys.modules.pop(n, None)
