"""Exploration engine: exhaustive case enumeration and breadth-first search over
operation histories, both executed on the real PyCIFRW build."""
import base64, collections, hashlib, json, mmap, os, pickle, re, select, shutil, signal, struct, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
    pass


class Bad(Exception):
    """Raised (or returned) by a case function: the property does not hold."""
    def __init__(self, key, msg):
        Exception.__init__(self, key, msg)
        self.key, self.msg = key, msg


class Skip(Exception):
    """Case outside the domain of the property: counted, but trivial."""


def check(cond, key, msg):
    if not cond:
        raise Bad(key, msg() if callable(msg) else msg)


class _Null(object):
    def write(self, s): return len(s)
    def flush(self): pass
    def isatty(self): return False


def short(x, n=600):
    # long runs of one character are abbreviated
    r = x if isinstance(x, str) else repr(x)
    r = re.sub(r"(.)\1{24,}", lambda m: "%s<*%d>" % (m.group(1), len(m.group(0))), r)
    return r if len(r) <= n else r[:n] + "...(%d chars)" % len(r)


# ---------------------------------------------------------------- fingerprint
def canon(obj, memo=None):
    """Generic structural canonical form of an object graph (attribute names and
    values, container contents, sharing/cycles).  Used only to decide whether two
    histories led to the same implementation state."""
    if memo is None:
        memo = {}
    t = type(obj)
    if obj is None or t in (bool, int, float, complex, str, bytes):
        return (t.__name__, repr(obj))
    if id(obj) in memo:
        return ("ref", memo[id(obj)][0])
    memo[id(obj)] = (len(memo), obj)
    if isinstance(obj, dict):
        body = tuple((canon(k, memo), canon(v, memo)) for k, v in obj.items())
    elif isinstance(obj, (list, tuple, collections.deque)):
        body = tuple(canon(v, memo) for v in obj)
    elif isinstance(obj, (set, frozenset)):
        body = tuple(sorted(repr(canon(v, {})) for v in obj))
    elif callable(obj) and not hasattr(obj, "__dict__"):
        return ("fn", getattr(obj, "__name__", "?"))
    elif t.__name__ in ("function", "method", "builtin_function_or_method", "type", "module", "Pattern"):
        return ("fn", getattr(obj, "__name__", getattr(obj, "pattern", "?")))
    elif hasattr(obj, "tolist") and hasattr(obj, "shape"):
        body = repr(obj.tolist())
    else:
        body = ()
    d = getattr(obj, "__dict__", None)
    attrs = tuple((k, canon(d[k], memo)) for k in sorted(d)) if isinstance(d, dict) else ()
    return (t.__name__, body, attrs)


def digest(x):
    return hashlib.md5(repr(x).encode("utf8", "surrogatepass")).digest()[:10]


# development aid: stop at the first violation (the verdict is the same)
EVID = os.environ.get("MC_EVID") or os.path.join(VERIF, "evidence")
FAILFAST = bool(os.environ.get("MC_FAILFAST"))


class FirstViolation(Exception):
    pass


# --------------------------------------------------------------------- context
class Ctx(object):
    def __init__(self, pid, tier="quick", seed=1, replay=None, nworkers=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.replay = replay
        self.n = nworkers or int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
        self.t0 = time.time()
        self.budget = float(os.environ.get("MC_BUDGET", "600" if self.quick else "14400"))
        self.bad = collections.OrderedDict()   # key -> dict(section, case, msg, count)
        self.sections = collections.OrderedDict()
        self.samples = []
        self.exhaustive = True
        self.counts = collections.Counter()
        self.hashes = set()
        self.case_cpu = 20.0
        self.level = "model_checking"
        self.rule = ""
        self.assumptions = []
        self.scratch = None

    # -- bookkeeping
    def left(self):
        return self.budget - (time.time() - self.t0)

    def _bad(self, section, case, key, msg, count=1):
        if key in self.bad:
            self.bad[key]["count"] += count
        else:
            self.bad[key] = dict(section=section, case=case, msg=msg, count=count)

    # -- exhaustive enumeration
    def explore(self, name, gen, fn, emit=False, quiet=False):
        """gen: callable -> iterator of distinct cases.  fn(case, st) checks one
        case on the implementation; it raises Bad on violation, Skip if the case is
        outside the domain; its return value is collected if emit."""
        if self.replay is not None:
            if self.replay["section"] == name:
                self._replay_case(name, fn)
            return []
        t0 = time.time()
        n = self.n
        cells = mmap.mmap(-1, 8 * n)
        procs = []
        for w in range(n):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    for p in procs:
                        os.close(p[1])
                    self._worker(w, n, gen, fn, wfd, cells, emit)
                    code = 0
                except BaseException:
                    try:
                        os.write(wfd, b"")
                        with open(os.path.join(self.scratch, "err%d" % w), "w") as f:
                            traceback.print_exc(file=f)
                    except Exception:
                        pass
                finally:
                    os._exit(code)
            os.close(wfd)
            procs.append([pid, r, [], None, w])
        results = self._collect(procs, cells)
        tot = collections.Counter()
        emitted = []
        bads = []
        done = True
        for res, w in results:
            if res is None:
                idx = struct.unpack_from("q", cells, 8 * w)[0]
                errf = os.path.join(self.scratch, "err%d" % w)
                if os.path.exists(errf):
                    raise RuntimeError("harness worker failed:\n" + open(errf).read())
                case = None
                for i, c in enumerate(gen()):
                    if i == idx:
                        case = c
                        break
                bads.append((idx, "crash-or-hang", "the interpreter crashed or hung while executing this case", case))
                done = False
                continue
            tot.update(res["counts"])
            self.hashes.update(res["hashes"])
            emitted.extend(res["emitted"])
            for b in res["bads"]:
                bads.append(b)
            self.counts["badcases"] += res["nbad"]
            done = done and res["done"]
            if len(self.samples) < 60:
                self.samples.extend({"section": name, "case": s} for s in res["samples"][:2])
        bads.sort(key=lambda b: b[0])
        for idx, key, msg, case in bads:
            self._bad(name, case, key, msg)
        self.counts.update(tot)
        sec = self.sections.setdefault(name, collections.Counter())
        sec.update(tot)
        self.exhaustive = self.exhaustive and done
        if not quiet:
            sys.stderr.write("[%s] %-28s %8d cases %8d nontrivial %s%.1fs\n" % (
                self.pid, name, tot["evaluations"], tot["nontrivial"],
                "BAD=%d " % len(bads) if bads else "", time.time() - t0))
            for b in bads[:5]:
                sys.stderr.write("    %s\n" % short("%s | %s | case %r" % (b[1], b[2], b[3]), 700))
        if FAILFAST and self.bad:
            raise FirstViolation()
        emitted.sort(key=lambda e: e[0])
        return [e[1] for e in emitted]

    def _collect(self, procs, cells):
        live = {p[1]: p for p in procs}
        last = {p[1]: (None, time.time()) for p in procs}
        while live:
            rd = select.select(list(live), [], [], 2.0)[0]
            now = time.time()
            for fd in rd:
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    live[fd][2].append(chunk)
                else:
                    os.close(fd)
                    p = live.pop(fd)
                    st = os.waitpid(p[0], 0)[1]
                    p[3] = st
            for fd, p in list(live.items()):
                cur = struct.unpack_from("q", cells, 8 * p[4])[0]
                if last[fd][0] != cur or p[2]:
                    last[fd] = (cur, now)
                elif now - last[fd][1] > 150 + 4 * self.case_cpu:
                    os.kill(p[0], signal.SIGKILL)
        out = []
        for p in procs:
            data = b"".join(p[2])
            try:
                res = pickle.loads(data) if data else None
            except Exception:
                res = None
            out.append((res, p[4]))
        return out

    def _arm(self):
        def onalrm(sig, frm):
            raise CaseTimeout()
        signal.signal(signal.SIGPROF, onalrm)

    def _worker(self, w, n, gen, fn, wfd, cells, emit):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        sys.stdout = _Null()
        sys.stderr = _Null()
        self._arm()
        d = os.path.join(self.scratch, "w%d" % w)
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        counts = collections.Counter()
        hashes, bads, samples, emitted = set(), [], [], []
        per = collections.Counter()
        nbad = 0
        done = True
        stop = self.t0 + self.budget
        for i, case in enumerate(gen()):
            if i % n != w:
                continue
            if i & 0xff == (w & 0xff) and time.time() > stop:
                done = False
                break
            if FAILFAST and os.path.exists(os.path.join(self.scratch, "failfast")):
                break
            struct.pack_into("q", cells, 8 * w, i)
            counts["evaluations"] += 1
            st = counts
            try:
                signal.setitimer(signal.ITIMER_PROF, self.case_cpu, 1.0)
                res = fn(case, st)
                signal.setitimer(signal.ITIMER_PROF, 0)
                counts["nontrivial"] += 1
                hashes.add(hash(repr(case)))
                if emit and res is not None:
                    emitted.append((i, res))
                if len(samples) < 3:
                    samples.append(short(case, 300))
                continue
            except Skip:
                signal.setitimer(signal.ITIMER_PROF, 0)
                continue
            except Bad as b:
                signal.setitimer(signal.ITIMER_PROF, 0)
                key, msg = b.key, b.msg
            except CaseTimeout:
                signal.setitimer(signal.ITIMER_PROF, 0)
                key, msg = "no-termination", "no result after %g s of CPU time" % self.case_cpu
            except Exception as e:
                signal.setitimer(signal.ITIMER_PROF, 0)
                key = "exception:" + type(e).__name__
                msg = "unexpected " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
            nbad += 1
            if FAILFAST:
                open(os.path.join(self.scratch, "failfast"), "w").close()
            per[key] += 1
            if per[key] <= 3 and len(bads) < 200:
                bads.append((i, key, msg, case))
        data = pickle.dumps(dict(counts=counts, hashes=hashes, bads=bads, samples=samples,
                                 emitted=emitted, nbad=nbad, done=done))
        p = 0
        while p < len(data):
            p += os.write(wfd, data[p:p + 65536])
        os.close(wfd)

    def _replay_case(self, name, fn):
        case = self.replay["case"]
        so = sys.stdout
        sys.stdout = _Null()
        self._arm()
        self.counts["evaluations"] += 1
        try:
            signal.setitimer(signal.ITIMER_PROF, self.case_cpu, 1.0)
            fn(case, collections.Counter())
        except Skip:
            pass
        except Bad as b:
            self._bad(name, case, b.key, b.msg)
        except CaseTimeout:
            self._bad(name, case, "no-termination", "timeout")
        except Exception as e:
            self._bad(name, case, "exception:" + type(e).__name__, traceback.format_exc())
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            sys.stdout = so

    # -- breadth-first search over histories
    def bfs(self, name, initials, ops_of, run, depth, max_states=None):
        """initials: list of starting histories (tuples).  ops_of(history, info) ->
        list of operations.  run(history, st) executes the whole history on the
        implementation and the reference model, raises Bad on disagreement and
        returns (fingerprint, info).  A state is expanded once per distinct
        fingerprint; every (state, operation) pair is executed on the real code."""
        if self.replay is not None:
            self.explore(name, lambda: [], lambda c, st: run(c, st))
            return
        t0 = time.time()
        seen = set()
        ev0 = self.counts["evaluations"]
        lvl = self.explore(name, lambda: iter(initials), lambda c, st: (c,) + tuple(run(c, st)), emit=True, quiet=True)
        frontier = []
        for h, f, info in lvl:
            if f not in seen:
                seen.add(f)
                frontier.append((h, info))
        trans = 0
        reached = 0
        complete = True
        for dep in range(1, depth + 1):
            if not frontier:
                break

            def gen(fr=frontier):
                for h, info in fr:
                    for op in ops_of(h, info):
                        yield h + (op,)
            lvl = self.explore(name, gen, lambda c, st: (c,) + tuple(run(c, st)), emit=True, quiet=True)
            reached = dep
            trans += len(lvl)
            nxt = []
            for h, f, info in lvl:
                if f not in seen:
                    seen.add(f)
                    nxt.append((h, info))
            frontier = nxt
            if max_states and len(seen) > max_states:
                complete = False
                break
            if self.left() < 0:
                complete = False
                break
        self.counts["states"] += len(seen)
        self.counts["transitions"] += trans
        sec = self.sections.setdefault(name, collections.Counter())
        sec["states"] += len(seen)
        sec["depth"] = reached
        sec["open_frontier"] = len(frontier)
        if not complete:
            self.exhaustive = False
        sys.stderr.write("[%s] %-28s %8d states %8d transitions depth %d frontier %d %.1fs%s\n" % (
            self.pid, name, len(seen), trans, reached, len(frontier), time.time() - t0,
            " BAD" if any(b["section"] == name for b in self.bad.values()) else ""))
        for k, b in self.bad.items():
            if b["section"] == name:
                sys.stderr.write("    %s\n" % short("%s | %s | %r" % (k, b["msg"], b["case"]), 900))

    # -- result
    def finish(self):
        known = {}
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            for e in json.load(open(kf)):
                if e.get("property") == self.pid and e.get("status") == "finding":
                    known[e["key"]] = e
        new = [(k, b) for k, b in self.bad.items() if k not in known]
        for k, b in self.bad.items():
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]["what"]))
        rdir = os.path.join(EVID, "replays")
        if self.replay is None:
            os.makedirs(rdir, exist_ok=True)
            for f in os.listdir(rdir):
                if f.startswith(self.pid + "-"):
                    os.remove(os.path.join(rdir, f))
        for i, (k, b) in enumerate(new[:8]):
            if self.replay is None:
                path = os.path.join(rdir, "%s-%d.json" % (self.pid, i + 1))
                json.dump(dict(property=self.pid, section=b["section"], key=k, message=b["msg"],
                               case=short(b["case"], 5000), count=b["count"], tier=self.tier,
                               replay_cmd="./check.sh %s %s --replay %s" % (self.pid, self.tier, path),
                               pickled=base64.b64encode(pickle.dumps(b["case"])).decode()),
                          open(path, "w"), indent=1)
            else:
                path = self.replay["path"]
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("   [%s] %s: %s" % (b["section"], k, short(b["msg"], 1500)))
            print("   case: %s" % short(b["case"], 800))
        if self.replay is not None:
            if not self.bad:
                print("replay: property held on this case")
            return 1 if new else 0
        cov = dict(exhaustive=bool(self.exhaustive), rule=self.rule, samples=self.samples[:24],
                   sections={k: dict(v) for k, v in self.sections.items()},
                   known_findings_seen=sum(1 for k in self.bad if k in known))
        c = self.counts
        if self.level == "model_checking":
            if not c["states"]:      # histories enumerated one by one
                c["states"], c["transitions"] = len(self.hashes), c["evaluations"]
            cov.update(states=c["states"], transitions=c["transitions"],
                       traces_validated_against_impl=c["evaluations"])
        else:
            cov.update(evaluations=c["evaluations"], distinct_nontrivial=len(self.hashes))
            if c["states"]:
                cov.update(states=c["states"], transitions=c["transitions"])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        p = os.path.join(EVID, self.pid + ".json")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        print("%s %s: %d executions, %d states, %d transitions, exhaustive=%s, %d violation(s), %.1fs" % (
            self.pid, self.tier, c["evaluations"], c["states"], c["transitions"], self.exhaustive,
            len(new), time.time() - self.t0))
        return 1 if new else 0
