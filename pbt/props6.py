"""Requests, commands and the daemon."""
import errno
import os
import shutil

from django.core.exceptions import PermissionDenied, SuspiciousOperation
from django.core.management import call_command
from django.db import OperationalError, connection, connections
from django.http import Http404, HttpResponse, HttpResponseRedirect, JsonResponse, StreamingHttpResponse
from django.test import override_settings
from django.test.client import Client

import gen as G
import servers
from gen import flag, ints, pickf
from pbt_urls import SCRIPT
from props import Prop, register
from props2 import fresh_connection, has
from world import Violation, World

ENDS = ["ok", "ok", "ok", "raise", "missing", "forbidden", "bad", "stream", "redirect", "json", "empty", "unchanged", "error"]
STATUS = {"empty": 204, "unchanged": 304, "error": 503}
RAISING = ("raise", "missing", "forbidden", "bad")
METHODS = ["get", "post", "get", "post", "head", "options", "put", "patch", "delete"]
MIDDLEWARE = [
    ["denorm.middleware.DenormMiddleware"],
    ["django.middleware.common.CommonMiddleware", "denorm.middleware.DenormMiddleware"],
    ["denorm.middleware.DenormMiddleware", "django.middleware.http.ConditionalGetMiddleware"],
    ["django.middleware.gzip.GZipMiddleware", "denorm.middleware.DenormMiddleware",
     "django.middleware.clickjacking.XFrameOptionsMiddleware"],
]
FAULTS = ["before", "after", "sql"]
PID = ["missing", "stale", "running", "foreign"]
ROLES = ["foreground", "foreground", "once", "parent", "child", "daemon"]


class ViewFailed(Exception):
    pass


class Armed(object):
    """execute_wrapper: once armed, statement k goes wrong."""

    def __init__(self, k, kind):
        self.k, self.kind = k, kind
        self.n = None
        self.hit = False

    def __call__(self, execute, sql, params, many, context):
        if self.n is None:
            return execute(sql, params, many, context)
        self.n += 1
        if self.n > 20000:
            raise Violation("flush-diverged", "more than 20000 statements")
        if self.n != self.k:
            return execute(sql, params, many, context)
        self.hit = True
        if self.kind == "sql" and not sql.startswith("SELECT"):
            # a failing SELECT of a server side cursor makes Django 2.0 raise an error of the driver
            return execute("SELECT no_such_column FROM denorm_dirtyinstance", (), False, context)
        if self.kind == "after" and sql.split(None, 1)[0] in ("SELECT", "INSERT", "UPDATE", "DELETE"):
            execute(sql, params, many, context)
        raise OperationalError("injected")


class Exited(BaseException):
    def __init__(self, code):
        self.code = code


class Patched(object):
    """Stand-ins for everything of the operating system the daemon uses."""

    def __init__(self, pid_state, forks):
        self.pid_state = pid_state
        self.forks = list(forks)
        self.calls = []

    def __enter__(self):
        self.old = {n: getattr(os, n) for n in ("kill", "fork", "_exit", "setsid", "umask", "chdir")}

        def kill(pid, sig):
            self.calls.append(("kill", pid, sig))
            if self.pid_state == "stale":
                raise ProcessLookupError(errno.ESRCH, "No such process")
            if self.pid_state == "foreign":
                raise PermissionError(errno.EPERM, "Operation not permitted")

        def _exit(code):
            raise Exited(code)

        def fork():
            self.calls.append(("fork",))
            return self.forks.pop(0)
        os.kill, os.fork, os._exit = kill, fork, _exit
        os.setsid = lambda: self.calls.append(("setsid",))
        os.umask = lambda m: self.calls.append(("umask",))
        os.chdir = lambda d: self.calls.append(("chdir",))
        return self

    def __exit__(self, *exc):
        for n, f in self.old.items():
            setattr(os, n, f)


@register
class C25(Prop):
    id = "C25"
    weights = dict(G.DEFAULT_WEIGHTS, flush=0)

    def case(self, draw, backend):
        b = G.mixed(draw, backend, nfeatures=(1, 3))
        spec = b.finish()
        if not has(spec, "text", "fk", "m2m"):
            b.text(0, [])
        ops = [o for o in G.history(draw, spec, self.weights, 8) if o[0] not in ("line", "many")]
        ops = [["txn", o[1], o[2]] if o[0] == "txn" else o for o in ops if o[0] != "flush"]
        steps = []
        while ops:
            n = draw(ints(1, 4))
            mine, ops = ops[:n], ops[n:]
            what = pickf(draw, ["request", "request", "request", "request", "command", "daemon"])
            if what == "request":
                steps.append(["request", mine, {
                    "end": pickf(draw, ENDS), "atomic": flag(draw, 3), "middleware": draw(ints(0, len(MIDDLEWARE) - 1)),
                    "method": pickf(draw, METHODS), "ajax": flag(draw, 4), "secure": flag(draw, 4),
                    "fault": [draw(ints(1, 12)), pickf(draw, FAULTS)] if flag(draw, 3) else None}])
            elif what == "command":
                steps.append(["command", mine])
            else:
                rounds = [mine]
                for _ in range(draw(ints(0, 2))):
                    rounds.append(ops[:2])
                    ops = ops[2:]
                steps.append(["daemon", rounds, {"role": pickf(draw, ROLES), "pid": pickf(draw, PID)
                                                 if flag(draw, 2) else "missing"}])
        return {"spec": spec, "steps": steps}

    def run(self, case, backend):
        with World(case["spec"]) as w:
            w.install()
            self.faults = 0
            for step in case["steps"]:
                getattr(self, "do_" + step[0])(w, *step[1:])
            # whatever was left over by a failed flush
            self.do_request(w, [], {"end": "ok", "atomic": False, "middleware": 0, "method": "get", "fault": None})
            w.check_aggregates("at the end")
            return {"nontrivial": w.stats.get("repaired", 0) > 0,
                    "count": {"faults hit": self.faults},
                    "classes": ["step:" + s[0] for s in case["steps"]] +
                               ["daemon:%s %s" % (s[2]["role"], s[2]["pid"]) for s in case["steps"] if s[0] == "daemon"] +
                               ["end:" + s[2]["end"] for s in case["steps"] if s[0] == "request"]}

    # ------------------------------------------------------------ requests

    def do_request(self, w, ops, how):
        first = {}
        wanted = self.response(w, [], how, [], None, first)
        armed = Armed(*how["fault"]) if how["fault"] else None
        seen = {}
        with connection.execute_wrapper(armed if armed else passing):
            got = self.response(w, ops, how, MIDDLEWARE[how["middleware"]], armed, seen)
        if "violation" in seen:
            raise seen["violation"]
        if connection.in_atomic_block or not connection.get_autocommit():
            raise Violation("transaction", "a transaction is open after the request")
        plain = self.response(w, [], how, [m for m in MIDDLEWARE[how["middleware"]] if "denorm" not in m], None, first)
        if got != plain:
            raise Violation("response", "with the middleware %r, without %r" % (got, plain))
        if wanted[0] != plain[0]:
            raise AssertionError((wanted, plain))
        if seen["base"] is not None and w.base_of(w.dump()) != seen["base"]:
            raise Violation("flush-changed-base-data", "by the flush of the middleware")
        if armed is not None and armed.hit:
            self.faults += 1
            return
        self.settled(w, "after a request")

    def response(self, w, ops, how, middleware, armed, seen):
        seen["base"] = None

        def script(request):
            try:
                for op in ops:
                    w.apply(op)
                if not (how["atomic"] and how["end"] in RAISING):
                    seen["base"] = w.base_of(w.dump())
                w.bump("repaired", w.stale())
            except Violation as e:
                seen["violation"] = e
            finally:
                if armed is not None:
                    armed.n = 0
            if how["end"] == "raise":
                raise ViewFailed("as told")
            if how["end"] == "missing":
                raise Http404("as told")
            if how["end"] == "forbidden":
                raise PermissionDenied("as told")
            if how["end"] == "bad":
                raise SuspiciousOperation("as told")
            if how["end"] == "stream":
                r = StreamingHttpResponse(iter([b"some", b" ", b"parts"]))
            elif how["end"] == "redirect":
                r = HttpResponseRedirect("/elsewhere")
            elif how["end"] == "json":
                r = JsonResponse({"method": request.method, "n": 1}, status=201)
            elif how["end"] in STATUS:
                r = HttpResponse(b"" if STATUS[how["end"]] < 400 else b"sorry", status=STATUS[how["end"]])
            else:
                r = HttpResponse("some text " * 40, content_type="text/plain; charset=utf-8")
                r["X-Made-By"] = "view"
                r.set_cookie("c", "v")
            return r
        SCRIPT.run = script
        connection.settings_dict["ATOMIC_REQUESTS"] = bool(how["atomic"])
        try:
            with override_settings(MIDDLEWARE=middleware):
                c = Client(raise_request_exception=False) if DJANGO_3 else Client()
                if not DJANGO_3:
                    c.store_exc_info = lambda **kw: None
                extra = {"HTTP_X_REQUESTED_WITH": "XMLHttpRequest"} if how.get("ajax") else {}
                r = getattr(c, how["method"])("/go", secure=bool(how.get("secure")), **extra)
        except Violation:
            raise
        except Exception as e:
            raise Violation("request-raised", "%s: %s" % (type(e).__name__, str(e)[:300]))
        finally:
            SCRIPT.run = None
            connection.settings_dict["ATOMIC_REQUESTS"] = False
        body = b"".join(r.streaming_content) if r.streaming else r.content
        return (r.status_code, body, sorted((k, v) for k, v in r.items()),
                sorted((k, m.OutputString()) for k, m in r.cookies.items()))

    def settled(self, w, where):
        """Everything is current and committed."""
        for using in ("default", "second"):
            dump = w.dump(using)
            if using == "default":
                mine = dump
            elif dump != mine:
                raise Violation("not-committed", "%s another connection sees other data" % where)
        w.check_callbacks(mine, where)
        n = len(w.markers())
        if n:
            raise Violation("markers-left", "%s %d markers are left" % (where, n))

    # ------------------------------------------------------------ commands

    def do_command(self, w, ops):
        for op in ops:
            w.apply(op)
        w.bump("repaired", w.stale())
        base = w.base_of(w.dump())
        try:
            call_command("denorm_flush")
        except Exception as e:
            raise Violation("command-raised", "denorm_flush: %s: %s" % (type(e).__name__, str(e)[:300]))
        if w.base_of(w.dump()) != base:
            raise Violation("flush-changed-base-data", "by the flush command")
        self.settled(w, "after the flush command")

    def do_daemon(self, w, rounds, how):
        from denorm.management.commands import denorm_daemon
        for op in rounds[0]:
            w.apply(op)
        w.bump("repaired", w.stale())
        before = w.dump("second")
        scratch = servers.scratch_dir("pbt-pid-")
        pidfile = os.path.join(scratch, "pid")
        if how["pid"] != "missing":
            with open(pidfile, "w") as f:
                f.write("4711")
        forks = {"parent": [4712], "child": [0, 4713], "daemon": [0, 0]}.get(how["role"], [])
        refused = how["pid"] in ("running", "foreign")
        quiet = refused or how["role"] in ("parent", "child")
        state = {"round": 0}

        def sleep(seconds):
            if seconds != 3:
                raise Violation("daemon", "it sleeps %r seconds instead of 3" % seconds)
            self.round_done(w, state, rounds)
        old_sleep, denorm_daemon.sleep = denorm_daemon.sleep, sleep
        end = None
        try:
            with Patched(how["pid"], forks) as p, open(os.devnull, "w") as null:
                try:
                    call_command("denorm_daemon", foreground=how["role"] in ("foreground", "once"), interval=3,
                                 pidfile=pidfile, run_once=how["role"] == "once", stderr=null, stdout=null)
                    end = "returned"
                except SystemExit:
                    end = "exit"
                except Exited as e:
                    end = "_exit %s" % e.code
                except (Violation, AssertionError):
                    raise
                except Exception as e:
                    raise Violation("daemon-raised", "%s, pid file %s: %s: %s" % (
                        how["role"], how["pid"], type(e).__name__, str(e)[:300]))
                if any(c[0] == "kill" and c[2] != 0 for c in p.calls):
                    raise Violation("daemon", "a signal was sent: %r" % p.calls)
        finally:
            denorm_daemon.sleep = old_sleep
            if os.path.exists(pidfile):
                with open(pidfile) as f:
                    state["pid"] = f.read()
            shutil.rmtree(scratch)
            if end != "returned":
                # the process ends here
                fresh_connection()
        wanted = "returned" if refused or how["role"] == "once" else \
            "_exit 0" if how["role"] in ("parent", "child") else "exit"
        if end != wanted:
            raise Violation("daemon", "%s, pid file %s: %s instead of %s" % (how["role"], how["pid"], end, wanted))
        if quiet:
            if w.dump() != before:
                raise Violation("daemon", "%s, pid file %s: something was written" % (how["role"], how["pid"]))
            if not refused and how["role"] == "child" and state.get("pid") != "4713":
                raise Violation("daemon", "the pid file holds %r" % state.get("pid"))
            if refused and state.get("pid") != "4711":
                raise Violation("daemon", "the pid file of the running daemon became %r" % state.get("pid"))
            return
        if how["role"] != "once" and state["round"] != len(rounds):
            raise AssertionError(state)
        if not connection.get_autocommit():
            raise Violation("transaction", "a transaction is open after the command")
        self.settled(w, "after the daemon ended")

    def round_done(self, w, state, rounds):
        """The daemon went to sleep: another connection looks, and writes for the next round."""
        state["round"] += 1
        dump = w.dump("second")
        w.check_callbacks(dump, "after round %d of the daemon" % state["round"])
        if w.markers("second"):
            raise Violation("markers-left", "after a round of the daemon")
        if state["round"] == len(rounds):
            raise KeyboardInterrupt()
        for op in rounds[state["round"]]:
            if op[0] in ("txn", "hold", "save_held", "race"):
                continue
            w.apply(op, using="second")
        w.bump("repaired", w.stale(w.dump("second")))


def passing(execute, sql, params, many, context):
    return execute(sql, params, many, context)


import django  # noqa
DJANGO_3 = django.VERSION >= (3, 0)
