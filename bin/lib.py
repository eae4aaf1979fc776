"""What all checks share: running commands, findings, replay files, evidence."""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, ".work")
REPO = "/repo"
NIGHTLY = "nightly-2025-03-20"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
LIMIT = float(os.environ.get("VERIF_LIMIT", "840" if TIER == "quick" else "6000"))


def left():
    return LIMIT - (time.time() - T0)


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def run(cmd, cwd=None, env=None, timeout=None, inp=None):
    """Returns (exit code or None when out of time, stdout, stderr)."""
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"})
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, r = p.communicate(inp, timeout=timeout if timeout is not None else max(5, left()))
        return p.returncode, o, r
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, r = p.communicate()
        return None, o, r


class Broken(Exception):
    """The check cannot say anything (the tree does not build, a tool is missing)."""


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.bad = []          # violations: dicts with key, detail, input (bool)
        self.coverage = {"obligations": 0, "discharged": 0}
        self.assumptions = []
        self.notes = []
        self.trusted = []
        self.cmds = []

    def add(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def violation(self, key, detail, replay, found=True):
        """key identifies the failing input, call site or obligation; replay is what re-runs it."""
        self.bad.append({"key": key, "detail": detail, "replay": replay, "found": found})

    def finish(self, level):
        known = load_known(self.pid)
        shown, new = [], []
        for b in self.bad:
            k = next((k for k in known if k["key"] == b["key"]), None)
            if k:
                if k["key"] not in shown:
                    shown.append(k["key"])
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
            else:
                new.append(b)
        ev = {
            "property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
            "coverage": dict(self.coverage, checker_cmd=" ; ".join(self.cmds) or "none", trusted_base=self.trusted, notes=self.notes),
            "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1), "violations": len(new),
        }
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.pid}.json", "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        # violations with a failing input go first; one line per violation, at most 8
        new.sort(key=lambda b: not b["found"])
        os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
        for i, b in enumerate(new[:8]):
            path = f"{VERIF}/evidence/replay/{self.pid}-{i + 1}.txt"
            with open(path, "w", encoding="utf-8") as f:
                f.write(f"property: {self.pid}\nwhat: {b['key']}\n{b['detail']}\n\nto replay:\n{b['replay']}\n")
            log(b["key"], "-", b["detail"].splitlines()[0][:300] if b["detail"] else "")
            print(f"VIOLATION property={self.pid} replay={path}" + ("" if b["found"] else " no-failing-input-found"), flush=True)
        return 1 if new else 0


def load_known(pid):
    try:
        with open(f"{VERIF}/known-findings.txt", encoding="utf-8") as f:
            ks = [json.loads(l) for l in f if l.strip().startswith("{")]
    except FileNotFoundError:
        return []
    return [k for k in ks if k.get("property") == pid and k.get("status") == "known"]


def errors_of(text, n=40):
    """The first compiler errors of a rustc/cargo log."""
    m = re.search(r"^error", text, re.M)
    return "\n".join((text[m.start():] if m else text).splitlines()[:n])
