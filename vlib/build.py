"""Turns /repo's current working tree into analysable LLVM bitcode, with the flags of its own build."""
import json, os, re, shlex, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"


class Broken(Exception):
    """The analysis itself could not be carried out (exit code 2)."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode:
        raise Broken("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd)[:300], p.stderr[-2000:]))
    return p.stdout


def tools():
    run(["bash", os.path.join(VERIF, "setup.sh")])


def defined(bc, kinds):
    return [w[-1] for w in (l.split() for l in run([LLVM + "llvm-nm", "--defined-only", bc]).splitlines())
            if len(w) >= 2 and w[-2] in kinds]


class Program:
    """Bitcode of the library (lib.bc), of the test bench (tb.bc) and the list of translation units."""

    def __init__(self, work, defines=(), level=("-O0", "-Xclang", "-disable-O0-optnone")):
        self.work = work
        cc = os.path.join(work, "cc")
        env = dict(os.environ, CC=LLVM + "clang", CXX=LLVM + "clang++")
        run(["cmake", "-S", REPO, "-B", cc, "-G", "Ninja", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
             "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"], env=env)
        db = json.load(open(os.path.join(cc, "compile_commands.json")))
        self.units = {"lib": [], "tb": []}
        self.flags = {}
        jobs = []
        for i, e in enumerate(db):
            words = shlex.split(e["command"])
            part = "lib" if "ia_mpeghd_lib.dir" in e["command"] else "tb"
            keep = [w for w in words if re.match(r"-(I|D|U|std=|isystem)", w)]
            out = os.path.join(work, "%s_%03d.bc" % (part, i))
            self.units[part].append((e["file"], out))
            self.flags[e["file"]] = keep + ["-D" + d for d in defines]
            jobs.append([LLVM + "clang", *level, "-g", "-w"] + self.flags[e["file"]] +
                        ["-c", "-emit-llvm", "-o", out, e["file"]])
        if len(self.units["lib"]) < 80 or len(self.units["tb"]) < 5:
            raise Broken("translation units vanished: %d library, %d test bench" %
                         (len(self.units["lib"]), len(self.units["tb"])))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda c: run(c, cwd=cc), jobs))
        for part in ("lib", "tb"):
            raw = os.path.join(work, part + ".raw.bc")
            run([LLVM + "llvm-link"] + [o for _, o in self.units[part]] + ["-o", raw])
            self.fold(part, raw)
            run([LLVM + "opt", "-passes=sroa,simplifycfg<no-switch-to-lookup;no-speculate-blocks>", raw, "-o",
                 os.path.join(work, part + ".bc")])
        self.lib = os.path.join(work, "lib.bc")
        self.tb = os.path.join(work, "tb.bc")
        self.raw = os.path.join(work, "lib.raw.bc")

    def fold(self, part, raw):
        """Merges functions that known/functions.json does not list (helpers extracted since the reviewed lists were
        made) into their callers, so that where a check or computation is written makes no difference."""
        known = json.load(open(os.path.join(VERIF, "known", "functions.json")))
        names = {re.sub(r"\.\d+$", "", f) for f in known["functions"]}
        new = [f for f in defined(raw, "TtWwVv") if re.sub(r"\.\d+$", "", f) not in names]
        self.folded = getattr(self, "folded", []) + new
        if not new:
            return
        keep = os.path.join(self.work, part + ".keep")
        open(keep, "w").write("\n".join(known["functions"] + defined(raw, "BDRSbdrsC")) + "\n")
        force = ["-force-remove-attribute=%s:noinline" % f for f in new] + ["-force-attribute=%s:alwaysinline" % f for f in new]
        run([LLVM + "opt", "-passes=forceattrs,always-inline,internalize,globaldce",
             "-internalize-public-api-file=" + keep] + force + [raw, "-o", raw])

    def inlined(self):
        """The library with small and single-use functions merged into their callers, and simplified."""
        out = os.path.join(self.work, "lib.inl.bc")
        if not os.path.exists(out):
            ll = os.path.join(self.work, "lib.ll")
            run([LLVM + "llvm-dis", self.lib, "-o", ll])
            s = open(ll).read()
            open(ll, "w").write(re.sub(r"\bnoinline\b", "", s))
            run([LLVM + "opt", "-passes=cgscc(inline),function(sroa,instcombine<no-verify-fixpoint>,"
                 "simplifycfg<no-switch-to-lookup>)", "-inline-threshold=100", ll, "-o", out])
        return out
