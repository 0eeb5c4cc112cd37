"""Compiles /repo sources and harnesses with sanitizers.

Objects are cached by the hash of their preprocessed text and flags, so a
changed /repo tree is always rebuilt as far as it changed, whatever the file
times say."""
import concurrent.futures, glob, hashlib, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/g++"
# Sources whose dependencies exist neither here nor as a stand-in in shim/.
EXCLUDED = {
    "aslam_cv_pipeline/src/visual-pipeline-brisk.cc",
    "aslam_cv_pipeline/src/visual-pipeline-freak.cc",
}
BASE = ["-std=gnu++14", "-mssse3", "-fext-numeric-literals", "-DENABLE_TIMING=FALSE",
        "-DENABLE_STATISTICS=FALSE", "-D_GLIBCXX_ASSERTIONS", "-w", "-fPIC",
        "-fno-omit-frame-pointer", "-pthread"]
CONFIGS = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize=vptr,nonnull-attribute", "-fsanitize-recover=undefined,float-cast-overflow", "-DVF_UBSAN"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O2", "-g1"],
}
LIBS = ["-lglog", "-lgflags", "-lyaml-cpp", "-lopencv_calib3d", "-lopencv_features2d", "-lopencv_highgui",
        "-lopencv_imgcodecs", "-lopencv_video", "-lopencv_imgproc", "-lopencv_core", "-lprotobuf", "-lgtest", "-lpthread"]


class BuildError(Exception):
    pass


def package_sources(package):
    """The src/ files a package's CMakeLists.txt names (as the reference build reads them)."""
    text = open(f"{REPO}/{package}/CMakeLists.txt").read()
    text = re.sub(r"#[^\n]*", "", text)
    out = []
    for f in re.findall(r"src/[A-Za-z0-9_/.-]+\.(?:cc|cpp)", text):
        p = f"{package}/{f}"
        if p not in out and p not in EXCLUDED and os.path.exists(f"{REPO}/{p}"):
            out.append(p)
    return out


def expand(sources):
    out = []
    for s in sources:
        if s.startswith("@"):  # '@pkg' or '@pkg:-a,-b'
            name, _, minus = s[1:].partition(":")
            drop = [m[1:] for m in minus.split(",") if m]
            for p in package_sources("aslam_cv_" + name):
                if not any(p.endswith(d) for d in drop):
                    out.append(p)
        else:
            out.append(s)
    return out


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def proto():
    src = f"{REPO}/aslam_cv_common/proto/aslam/common/id.proto"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = f"{BUILD}/proto-{h}"
    if not os.path.exists(f"{out}/aslam/common/id.pb.cc"):
        tmp = f"{out}.tmp{os.getpid()}"
        os.makedirs(tmp, exist_ok=True)
        r = run(["protoc", f"-I{REPO}/aslam_cv_common/proto", f"--cpp_out={tmp}", src])
        if r.returncode:
            raise BuildError("protoc: " + r.stderr.decode())
        try:
            os.rename(tmp, out)
        except OSError:
            pass
    return out


def includes(pd):
    inc = [f"-I{VERIF}/lib", f"-I{VERIF}/shim"]
    for d in sorted(glob.glob(f"{REPO}/aslam_cv_*/include")):
        inc.append("-I" + d)
    inc += [f"-I{pd}", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/opencv4"]
    return inc


def compile_one(path, flags, inc):
    full = path if os.path.isabs(path) else f"{REPO}/{path}"
    extra = []
    if full.startswith(REPO) and "/aslam_cv_common/" not in full:
        extra = ["-include", "opencv2/imgproc/imgproc_c.h"]
    cmd = [CXX] + BASE + flags + extra + inc
    r = run(cmd + ["-E", full])
    if r.returncode:
        raise BuildError(f"{full} does not preprocess:\n" + r.stderr.decode(errors="replace")[-4000:])
    key = hashlib.sha256(" ".join(flags + BASE).encode() + b"\0" + r.stdout).hexdigest()[:32]
    obj = f"{BUILD}/obj/{key}.o"
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    # No linemarker games: compile the preprocessed text itself.
    ii = f"{BUILD}/obj/{key}.{os.getpid()}.ii"
    with open(ii, "wb") as f:
        f.write(r.stdout)
    tmp = f"{BUILD}/obj/{key}.{os.getpid()}.o"
    r = run([CXX] + BASE + flags + ["-c", ii, "-o", tmp])
    os.unlink(ii)
    if r.returncode:
        text = r.stderr.decode(errors="replace")
        errs = [l for l in text.splitlines() if "error" in l][:20]
        raise BuildError(f"{full} does not compile:\n" + ("\n".join(errs) or text[:3000]))
    os.rename(tmp, obj)
    return obj


def build(name, harness, sources, config, extra_flags=()):
    """Returns the path of the harness program for one sanitizer configuration."""
    return build_many([(name, harness, sources, config, extra_flags)])[0]


def build_many(jobs):
    os.makedirs(f"{BUILD}/obj", exist_ok=True)
    os.makedirs(f"{BUILD}/bin", exist_ok=True)
    pd = proto()
    inc = includes(pd)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        plans = []
        for name, harness, sources, config, extra in jobs:
            flags = CONFIGS[config] + list(extra)
            hf = flags
            futs = [ex.submit(compile_one, h, hf, inc) for h in harness]
            for s in expand(sources):
                futs.append(ex.submit(compile_one, s, flags, inc))
            if sources:
                futs.append(ex.submit(compile_one, f"{pd}/aslam/common/id.pb.cc", flags, inc))
            plans.append((name, config, flags, futs))
        out = []
        for name, config, flags, futs in plans:
            objs = [f.result() for f in futs]
            key = hashlib.sha256("\n".join(objs + LIBS).encode()).hexdigest()[:16]
            exe = f"{BUILD}/bin/{name}.{config}.{key}"
            if not os.path.exists(exe):
                for old in glob.glob(f"{BUILD}/bin/{name}.{config}.*"):
                    os.unlink(old)
                tmp = f"{exe}.{os.getpid()}"
                r = run([CXX] + flags + ["-pthread", "-rdynamic"] + objs + ["-o", tmp] + LIBS)
                if r.returncode:
                    raise BuildError(f"{name} does not link:\n" + r.stderr.decode(errors="replace")[-4000:])
                os.rename(tmp, exe)
            out.append(exe)
        return out
