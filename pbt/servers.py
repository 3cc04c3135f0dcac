"""Throw-away database servers, one set per check run, on Unix sockets only.

Everything lives in one scratch directory (under /dev/shm when it is there)
that is removed when the check ends.
"""
import os
import shutil
import signal
import subprocess
import tempfile
import time

PG_BIN = "/usr/lib/postgresql/16/bin"


class ServerError(Exception):
    pass


def scratch_dir(prefix):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix=prefix, dir=base)
    os.chmod(d, 0o755)
    return d


def clean_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith("PG") and not k.startswith("MYSQL")}
    env["LC_ALL"] = "C.UTF-8"
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return env


class Postgres(object):
    def __init__(self, root):
        self.dir = os.path.join(root, "pg")
        self.as_user = ["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups"]

    def start(self):
        os.mkdir(self.dir)
        shutil.chown(self.dir, "postgres", "postgres")
        env = clean_env()
        env["HOME"] = self.dir
        data = os.path.join(self.dir, "data")
        r = subprocess.run(
            self.as_user + [PG_BIN + "/initdb", "-D", data, "-A", "trust", "-U", "postgres", "-E", "UTF8",
                            "--locale=C.UTF-8", "-N"],
            cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise ServerError("initdb failed: %s" % r.stdout.decode("utf-8", "replace")[-2000:])
        opts = ("-c listen_addresses= -c unix_socket_directories=%s -c fsync=off -c full_page_writes=off "
                "-c synchronous_commit=off -c max_connections=100 -c deadlock_timeout=200ms "
                "-c statement_timeout=60s -c autovacuum=off" % self.dir)
        r = subprocess.run(
            self.as_user + [PG_BIN + "/pg_ctl", "-D", data, "-l", os.path.join(self.dir, "log"), "-w", "-t", "120",
                            "-o", opts, "start"],
            cwd=self.dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode:
            raise ServerError("postgres did not start")

    @property
    def host(self):
        return self.dir

    def stop(self):
        data = os.path.join(self.dir, "data")
        if os.path.exists(os.path.join(data, "postmaster.pid")):
            subprocess.run(self.as_user + [PG_BIN + "/pg_ctl", "-D", data, "-m", "immediate", "-w", "stop"],
                           cwd="/", env=clean_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


class MySQL(object):
    def __init__(self, root):
        self.dir = os.path.join(root, "my")
        self.proc = None

    def start(self):
        os.mkdir(self.dir)
        shutil.chown(self.dir, "mysql", "mysql")
        data = os.path.join(self.dir, "data")
        # another server that starts would remove temporary tables it finds in a shared directory
        tmp = os.path.join(self.dir, "tmp")
        os.mkdir(tmp)
        shutil.chown(tmp, "mysql", "mysql")
        r = subprocess.run(
            ["/usr/bin/mariadb-install-db", "--no-defaults", "--user=mysql", "--datadir=" + data,
             "--auth-root-authentication-method=normal", "--skip-test-db", "--tmpdir=" + tmp],
            cwd=self.dir, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise ServerError("mariadb-install-db failed: %s" % r.stdout.decode("utf-8", "replace")[-2000:])
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.proc = subprocess.Popen(
            ["/usr/sbin/mariadbd", "--no-defaults", "--user=mysql", "--datadir=" + data, "--socket=" + self.host,
             "--pid-file=" + os.path.join(self.dir, "pid"), "--skip-networking", "--character-set-server=utf8mb4",
             "--innodb-flush-log-at-trx-commit=0", "--innodb-doublewrite=0", "--sync-frm=0",
             "--innodb-buffer-pool-size=256M", "--max-statement-time=60", "--innodb-lock-wait-timeout=10",
             "--lock-wait-timeout=20", "--max-connections=100", "--tmpdir=" + tmp],
            cwd=self.dir, env=clean_env(), stdout=self.log, stderr=self.log)
        for _ in range(600):
            if self.proc.poll() is not None:
                break
            r = subprocess.run(["/usr/bin/mariadb-admin", "--no-defaults", "-uroot", "-S", self.host, "ping"],
                               env=clean_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode == 0:
                return
            time.sleep(0.1)
        raise ServerError("mariadbd did not start: %s"
                          % open(os.path.join(self.dir, "log"), "rb").read().decode("utf-8", "replace")[-2000:])

    @property
    def host(self):
        return os.path.join(self.dir, "sock")

    def stop(self):
        if self.proc is not None and self.proc.poll() is None:
            self.proc.send_signal(signal.SIGKILL)
            self.proc.wait()


class Servers(object):
    """Context manager: starts what the listed backends need."""

    def __init__(self, backends):
        self.backends = set(backends)
        self.root = None
        self.running = []
        self.workers = []       # processes using the servers; ended before them
        self.hosts = {}

    def __enter__(self):
        import threading
        self.root = scratch_dir("pbt-denorm.")
        try:
            todo = []
            if self.backends & {"postgres", "postgis"}:
                s = Postgres(self.root)
                self.running.append(s)
                self.hosts["postgres"] = self.hosts["postgis"] = s.host
                todo.append(s)
            if "mysql" in self.backends:
                s = MySQL(self.root)
                self.running.append(s)
                self.hosts["mysql"] = s.host
                todo.append(s)
            errors = []

            def go(s):
                try:
                    s.start()
                except Exception as e:
                    errors.append(e)
            ts = [threading.Thread(target=go, args=(s,)) for s in todo]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errors:
                raise ServerError(str(errors[0]))
        except BaseException:
            self.__exit__()
            raise
        return self

    def __exit__(self, *exc):
        for w in self.workers:
            w["p"].kill()
            w["p"].wait()
        for s in self.running:
            try:
                s.stop()
            except Exception:
                pass
        if self.root:
            shutil.rmtree(self.root, ignore_errors=True)
