"""Runs Verus on an expanded proof unit and classifies what comes back."""
import json
import os
import re
import subprocess
import time
from . import extract

VERUS = "verus"
TIMEOUT = 400

FAIL_MSG = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
    r"possible arithmetic|possible division|not satisfied|could not prove|might not|may be out of bounds|"
    r"unable to prove|possible bit shift|decreases|cannot show|ensures", re.I)
LIMIT_MSG = re.compile(r"Resource limit|rlimit|timed? ?out|not finish", re.I)


class Result:
    def __init__(self):
        self.status = None          # ok | failed | limit | lost | unsupported | vacuous
        self.verified = 0
        self.errors = 0
        self.failures = []          # (function, message, rendered)
        self.reason = ""
        self.infos = []
        self.smt_ms = 0
        self.wall = 0.0
        self.trusted = []
        self.cmd = ""
        self.gen = ""
        self.raw = ""
        self.probes = 0
        self.probes_hit = 0


def _env():
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["PATH"] = "/root/.cargo/bin:/opt/veriftools/bin:/usr/local/bin:" + e.get("PATH", "")
    return e


def run_file(path, extra=()):
    cmd = [VERUS, "--output-json", "--time-expanded", *extra, os.path.basename(path), "--", "--error-format=json"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(path), capture_output=True, text=True, timeout=TIMEOUT, env=_env())
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = "", "TIMEOUT", -1
    except FileNotFoundError:
        out, err, rc = "", "verus not found", -2
    js = {}
    try:
        js = json.loads(out[out.index("{"):])
    except (ValueError, IndexError):
        pass
    diags = []
    for line in err.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                diags.append(d)
    return rc, js, diags, err, time.time() - t0, " ".join(cmd)


def locate(gen, byte):
    """name of the extracted item containing this byte offset of the generated file"""
    pos = gen.encode()[:byte].decode(errors="ignore")
    b = pos.rfind("/*VP:BEGIN ")
    if b < 0:
        return None
    e = pos.rfind("/*VP:END ")
    if e > b:
        return None
    return int(pos[b + 11:pos.index("*/", b)])


def scan_trusted(gen):
    """every assumption in the generated text"""
    out = []
    t = re.sub(r"//[^\n]*", "", gen)
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*?>)?\s*\[([^\]]*)\]", t):
        out.append("assumed contract (std/dependency): " + " ".join(m.group(1).split()))
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*((?:pub(?:\([a-z]+\))?\s+)?(?:proof |exec |broadcast )*(?:fn|struct|enum)\s+\w+)", t):
        out.append("external_body: " + " ".join(m.group(1).split()))
    for m in re.finditer(r"\b(assume|admit)\s*\(([^;]{0,80})", t):
        out.append(f"{m.group(1)}({' '.join(m.group(2).split())}")
    for m in re.finditer(r"#\[verifier::external_type_specification\][^;{]*", t):
        out.append("external type: " + " ".join(m.group(0).split()[-1:]))
    return sorted(set(out))


def check_unit(unit, workdir, probe=True, thorough=False):
    r = Result()
    name = os.path.basename(unit)[:-3]
    try:
        gen, r.infos = extract.expand(unit)
    except extract.LostAnchor as e:
        r.status, r.reason = "lost", str(e)
        return r
    except Exception as e:      # malformed source etc.: never an alarm
        r.status, r.reason = "lost", f"{type(e).__name__}: {e}"
        return r
    os.makedirs(workdir, exist_ok=True)
    path = os.path.join(workdir, name + ".rs")
    open(path, "w").write(gen)
    r.gen = path
    r.trusted = scan_trusted(gen)
    extra = ["--multiple-errors", "4"]
    if thorough:
        extra += ["--rlimit", "60"]
    else:
        extra += ["--rlimit", "30"]
    rc, js, diags, err, wall, cmd = run_file(path, extra)
    r.wall, r.cmd, r.raw = wall, cmd, err
    vr = js.get("verification-results", {})
    r.verified, r.errors = vr.get("verified", 0) or 0, vr.get("errors", 0) or 0
    try:
        r.smt_ms = js["times-ms"]["smt"]["total"]
    except (KeyError, TypeError):
        pass
    if rc == 0 and vr.get("success") and r.verified > 0 and r.errors == 0:
        r.status = "ok"
    elif rc in (-1,):
        r.status, r.reason = "limit", "verifier wall-clock limit"
    elif not vr or vr.get("encountered-vir-error") or vr.get("encountered-error") and r.errors == 0:
        r.status = "unsupported"
        r.reason = diags[0]["message"] if diags else err[-400:]
    else:
        proof_fail, limit, other = [], [], []
        for d in diags:
            sp = next((s for s in d["spans"] if s["is_primary"]), d["spans"][0] if d["spans"] else None)
            fn = None
            for s in d["spans"]:
                # a span inside a macro of another file: the place where that macro is used
                while s and os.path.basename(s["file_name"]) != name + ".rs":
                    s = (s.get("expansion") or {}).get("span")
                if not s:
                    continue
                n = locate(gen, s["byte_start"])
                if n is not None:
                    fn = r.infos[n]["item"]
                    break
            rec = (fn, d["message"], d.get("rendered", ""))
            if LIMIT_MSG.search(d["message"]):
                limit.append(rec)
            elif FAIL_MSG.search(d["message"]):
                proof_fail.append(rec)
            else:
                other.append(rec)
        if other and not proof_fail:
            r.status, r.reason = "unsupported", other[0][1]
        elif proof_fail:
            # a failure in an extracted function is a failed obligation of the code
            r.status, r.failures = "failed", proof_fail
            r.reason = "; ".join(f"{f or 'lemma'}: {m}" for f, m, _ in proof_fail[:4])
        elif limit:
            r.status, r.reason = "limit", "; ".join(f"{f or 'lemma'}: {m}" for f, m, _ in limit[:4])
        else:
            r.status, r.reason = "unsupported", err[-400:]
    if r.status == "ok" and probe:
        probe_unit(r, gen, path)
    return r


def probe_unit(r, gen, path):
    """Vacuity guard: an unprovable assertion behind every precondition / loop invariant must fail."""
    n = 0

    def ins(m):
        nonlocal n
        n += 1
        return f"{m.group(0)} proof {{ if vp_probe({n}) {{ assert(false); }} }}"

    t = re.sub(r"/\*VP:(?:START|LOOP\d+)\*/(?:\s*hide\(\w+\);)*", ins, gen)
    t = t.replace("verus! {", "verus! {\npub uninterp spec fn vp_probe(k: int) -> bool;\n", 1)
    p = path[:-3] + "__probe.rs"
    open(p, "w").write(t)
    rc, js, diags, err, wall, cmd = run_file(p, ["--multiple-errors", "60", "--rlimit", "5"])
    r.wall += wall
    hit = set()
    gave_up = []
    for d in diags:
        for s in d["spans"]:
            line = s["text"][0]["text"] if s["text"] else ""
            m = re.search(r"vp_probe\((\d+)\)", line)
            if m and d["message"] == "assertion failed":
                hit.add(m.group(1))
            elif "rlimit" in d["message"]:
                gave_up.append(s["line_start"])
    # where the solver ran out of resources it has not proved the point unreachable either: the first
    # probe at or after the query it gave up on counts as not refuted
    at = [(i, m.group(1)) for i, l in enumerate(t.split("\n"), 1) for m in re.finditer(r"vp_probe\((\d+)\) \{", l)]
    for g in gave_up:
        for i, k in at:
            if i >= g:
                hit.add(k)
                break
    r.probes, r.probes_hit = n, len(hit)
    if len(hit) < n:
        r.status, r.reason = "vacuous", f"{n - len(hit)} of {n} reachability probes were proved unreachable"
