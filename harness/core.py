"""The machinery shared by the checks: TLC runs, cases, verdicts, evidence."""
import concurrent.futures
import json
import os
import re
import subprocess
import sys
import time
import traceback

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPECS = os.path.join(VERIF, "specs")
TLA = "/opt/veriftools/tla"
CP = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA)


class Mismatch(Exception):
    """The code does something else than the specification says."""


class SpecError(Exception):
    """TLC does not accept a specification (an error of the machinery)."""


class Raw:
    """A TLA+ expression."""

    def __init__(self, text):
        self.text = text


def tla(value):
    """Write a python value as a TLA+ expression (for the constants)."""
    if isinstance(value, Raw):
        return value.text
    if isinstance(value, bool):
        return "TRUE" if value else "FALSE"
    if isinstance(value, (int, np.integer)):
        return str(int(value))
    if isinstance(value, str):
        return '"%s"' % value
    if isinstance(value, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(tla(v) for v in value))
    if isinstance(value, (list, tuple)):
        return "<<%s>>" % ", ".join(tla(v) for v in value)
    if isinstance(value, dict):
        return "[%s]" % ", ".join("%s |-> %s" % (k, tla(v)) for k, v in value.items())
    raise TypeError(type(value))


def short(output):
    """The part of the output of TLC about an error."""
    output = re.sub(r"(?ms)^The coverage statistics at.*?^End of statistics\.$", "", output)
    return "\n".join(x for x in output.splitlines() if not x.startswith('"@@'))[-6000:]


class TlcResult:
    def __init__(self, output, module):
        self.output = output
        self.module = module
        self.emitted = []
        for line in output.splitlines():
            if line.startswith('"@@'):
                self.emitted.append(json.loads(json.loads(line)[2:]))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", output)
        if m:
            self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"([\d,]+) states checked", output) or re.findall(r"([\d,]+) states generated", output)
            self.generated = self.distinct = int(m[-1].replace(",", "")) if m else 0
        self.actions = {}
        for name, count in re.findall(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module \w+"
                                      r"(?: \([\d ]+\))?>: \d+:(\d+)$", output, re.M):
            self.actions[name] = max(self.actions.get(name, 0), int(count))
        self.violated = re.findall(r"Error: (?:Invariant|Temporal property|Action property|Property) (\w+) (?:is|was) violated", output)
        self.violated += re.findall(r"Error: Action property (.*) is violated", output)
        self.ok = "No error has been found" in output or (
            "Error:" not in output and "Finished in" in output)


class Context:
    def __init__(self, prop, tier, mod):
        self.prop, self.tier, self.mod = prop, tier, mod
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.work = os.environ["VERIF_WORK"]
        self.rng = np.random.default_rng([self.seed, int(re.sub(r"\D", "", prop))])
        self.start = time.time()
        self.runs = []
        self.cases_run = 0
        self.samples = []
        self.violations = []
        self.known_hit = []
        self.counts = {}
        self.notes = []
        self.pool = concurrent.futures.ThreadPoolExecutor(4)
        self._ntlc = 0
        self.known = self._load_known()

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, constants=None, spec=None, init=None, next=None, invariants=(), properties=(),
            constraints=(), action_constraints=(), postcondition=None, view=None, symmetry=None, env=None, req=None,
            workers=2, simulate=None, depth=None, label=None, coverage=True, allow_unused=(), heap="3g",
            judge=True, timeout=None, substitutions=None, deadlock=False):
        """Run TLC and return what it found; the specification itself must be accepted if *judge*."""
        self._ntlc += 1
        mc = "MC%d_%s" % (self._ntlc, module)
        base = os.path.join(self.work, mc)
        with open(base + ".tla", "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\n" % (mc, module))
            for key, val in (constants or {}).items():
                f.write("mc_%s == %s\n" % (key, tla(val)))
            f.write("====\n")
        lines = []
        if spec:
            lines.append("SPECIFICATION " + spec)
        else:
            lines += ["INIT " + init, "NEXT " + next]
        for key, val in (constants or {}).items():
            lines.append("CONSTANT %s <- mc_%s" % (key, key))
        for key, val in (substitutions or {}).items():
            lines.append("CONSTANT %s <- %s" % (key, val))
        for word, names in (("INVARIANT", invariants), ("PROPERTY", properties), ("CONSTRAINT", constraints),
                            ("ACTION_CONSTRAINT", action_constraints)):
            for name in names:
                lines.append("%s %s" % (word, name))
        if postcondition:
            lines.append("POSTCONDITION " + postcondition)
        if view:
            lines.append("VIEW " + view)
        if symmetry:
            lines.append("SYMMETRY " + symmetry)
        lines.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        with open(base + ".cfg", "w") as f:
            f.write("\n".join(lines) + "\n")
        envir = dict(os.environ)
        if req is not None:
            with open(base + ".json", "w") as f:
                json.dump(req, f)
            envir["REQ"] = base + ".json"
        envir.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + self.work,
               "-DTLA-Library=" + SPECS, "-cp", CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", base + ".meta", "-workers", str(workers), "-config", base + ".cfg"]
        if coverage:
            cmd += ["-coverage", "60"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed)]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd.append(base + ".tla")
        begin = time.time()
        limit = timeout or (600 if self.quick else 10800)
        proc = subprocess.run(cmd, cwd=self.work, env=envir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              timeout=limit)
        res = TlcResult(proc.stdout, module)
        res.wall = time.time() - begin
        if judge and not (res.ok and proc.returncode == 0):
            raise SpecError("TLC on %s (%s):\n%s" % (module, " ".join(lines), short(proc.stdout)))
        unused = [a for a, c in res.actions.items() if c == 0 and a not in allow_unused]
        if judge and unused and not simulate:
            raise SpecError("actions of %s never taken: %s" % (module, unused))
        self.runs.append({"module": module, "label": label or module, "generated": res.generated,
                          "distinct": res.distinct, "wall_s": round(res.wall, 1), "actions": res.actions,
                          "checked": list(invariants) + list(properties), "constants": {k: tla(v) for k, v in (constants or {}).items()}})
        return res

    def tlc_async(self, *args, **kwargs):
        return self.pool.submit(self.tlc, *args, **kwargs)

    def refuted(self, module, constants, invariant, **kwargs):
        """Start TLC on a specification made wrong on purpose: it must find that *invariant* is violated."""
        def run():
            res = self.tlc(module, constants, judge=False, coverage=False, **kwargs)
            if invariant not in res.violated:
                raise SpecError("%s does not see %s violated with %s:\n%s" % (module, invariant, constants, short(res.output)))
            self.count("wrong specifications refuted")
            return res
        return self.pool.submit(run)

    def judge(self, module, constants, records, spoil=(), init="JudgeInit", next="EmitNext", label="recorded executions"):
        """Have TLC judge records with the predicate of the specification; spoilt copies of records must be refused.

        *spoil* has functions that change (a copy of) a record so that the specification does not allow it, or return
        False. Returns the refused records."""
        copies = []
        for fun in spoil:
            for i in np.random.default_rng(self.seed).permutation(len(records))[:20]:
                copy = json.loads(json.dumps(records[int(i)]))
                if fun(copy) is not False:
                    copies.append(copy)
                    break
        allrec = list(records) + copies
        res = self.tlc(module, constants, init=init, next=next, invariants=["Judge", "Judged"], req=allrec, workers=1,
                       coverage=False, label=label)
        assert any(r.get("judged") == len(allrec) for r in res.emitted)
        refused = {r["bad"] - 1 for r in res.emitted if "bad" in r}
        for i in range(len(records), len(allrec)):
            if i not in refused and not refused & set(range(len(records))):
                raise SpecError("%s accepts a spoilt record: %s" % (module, allrec[i]))
        self.count("recorded executions judged", len(records))
        self.count("spoilt records refused", len(copies))
        return [records[i] for i in sorted(refused) if i < len(records)]

    # -- calling the code --------------------------------------------------
    def call(self, fun, *args, **kwargs):
        """Call the code under test; anything it raises is a mismatch."""
        try:
            return fun(*args, **kwargs)
        except Exception as err:
            raise Mismatch("raised %s: %s" % (type(err).__name__, str(err)[:500])) from err

    def outcome(self, fun, *args, **kwargs):
        """Call the code under test, return (True, result) or (False, exception)."""
        try:
            return True, fun(*args, **kwargs)
        except Exception as err:
            return False, err

    def count(self, name, num=1):
        self.counts[name] = self.counts.get(name, 0) + num

    # -- cases -------------------------------------------------------------
    def _load_known(self):
        known = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                    if m and m.group(1) == self.prop:
                        known.append((m.group(2), m.group(3).strip()))
        return known

    def run(self, case):
        current = os.path.join(self.work, "current.json")
        with open(current, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "case": case}, f, default=str)
        begin = time.time()
        try:
            self.mod.run_case(self, case)
        except Mismatch as err:
            self.fail(case, err)
        except (SpecError, AssertionError, subprocess.SubprocessError, OSError, MemoryError):
            raise   # of the machinery
        except Exception as err:   # what the code gave can not even be compared
            traceback.print_exc()
            self.fail(case, "the result can not be judged: %s: %s" % (type(err).__name__, err))
        self.cases_run += 1
        kind = case.get("kind", "case")
        self.count(kind)
        self.counts["_t_" + kind] = self.counts.get("_t_" + kind, 0) + time.time() - begin
        if self.counts[kind] <= 2 and len(self.samples) < 12:
            self.samples.append(case)
        os.unlink(current)

    def fail(self, case, err):
        key = case.get("key", "")
        for k, what in self.known:
            if k == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
                return
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "case": case,
                       "what": str(err), "traceback": traceback.format_exc()}, f, indent=1, default=str)
        self.violations.append({"case": case, "what": str(err)})
        print("mismatch in %s: %s" % (json.dumps(case, default=str)[:600], str(err)[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()

    # -- main --------------------------------------------------------------
    def all_cases(self):
        try:
            yield from self.mod.cases(self)
        except Exception:
            if not self.violations:
                raise
            traceback.print_exc()   # the violations count

    def main(self, replay=None):
        import geotiepoints
        assert geotiepoints.__file__.startswith(os.environ["VERIF_PKG"]), geotiepoints.__file__
        only = None
        if replay:
            with open(replay) as f:
                data = json.load(f)
            only = data["case"]
            self.seed = data["seed"]
        cap = 3
        for case in self.all_cases():
            if only is not None and json.loads(json.dumps(case, default=str)) != only:
                continue
            self.run(case)
            if len(self.violations) >= cap:
                self.notes.append("stopped after %d violations" % cap)
                break
        self.pool.shutdown()
        if only is None:
            self.evidence()
        print("%s %s: %d cases replayed, %d violations, %.1f s" % (
            self.prop, self.tier, self.cases_run, len(self.violations), time.time() - self.start))
        for name, val in sorted(self.counts.items()):
            print("  %s = %s" % (name, round(val, 2)))
        labels = {}
        for run in self.runs:
            labels.setdefault(run["label"], []).append(run)
        for label, runs in labels.items():
            print("  TLC %s%s: %d states, %d distinct, %.1f s" % (
                label, " (%d runs)" % len(runs) if len(runs) > 1 else "", sum(r["generated"] for r in runs),
                sum(r["distinct"] for r in runs), sum(r["wall_s"] for r in runs)))
        return 1 if self.violations else 0

    def evidence(self):
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        counts = {k: v for k, v in self.counts.items() if not k.startswith("_t_")}
        coverage = {
            "states": sum(r["distinct"] for r in self.runs),
            "transitions": sum(r["generated"] for r in self.runs),
            "traces_validated_against_impl": self.cases_run,
            "samples": json.loads(json.dumps(self.samples, default=str)),
            "cases_by_kind": counts,
            "tlc_runs": self.runs,
            "build": json.loads(os.environ.get("VERIF_BUILD", "{}")),
            "explanation": (self.mod.__doc__ or "").strip(),
        }
        if self.notes:
            coverage["notes"] = self.notes
        data = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                "coverage": coverage, "assumptions": getattr(self.mod, "ASSUMPTIONS", []),
                "wall_s": round(time.time() - self.start, 2), "violations": len(self.violations)}
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(data, f, indent=1)
        os.replace(tmp, path)
