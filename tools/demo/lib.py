"""Starts Django with the denorm package of the current directory on a throw-away database."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
PG = "/usr/lib/postgresql/16/bin"


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PG", "MYSQL"))}
    e["LC_ALL"] = "C.UTF-8"
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return e


def scratch():
    d = tempfile.mkdtemp(prefix="demo.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    os.chmod(d, 0o755)
    atexit.register(shutil.rmtree, d, True)
    return d


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), **kw)
    if r.returncode:
        sys.exit("could not prepare: %s\n%s" % (cmd, r.stdout.decode("utf-8", "replace")[-2000:]))


def postgres(d):
    home = os.path.join(d, "pg")
    os.mkdir(home)
    shutil.chown(home, "postgres", "postgres")
    user = ["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups"]
    run(user + [PG + "/initdb", "-D", home + "/data", "-A", "trust", "-U", "postgres", "-E", "UTF8",
                "--locale=C.UTF-8", "-N"], cwd=home)
    subprocess.run(user + [PG + "/pg_ctl", "-D", home + "/data", "-l", home + "/log", "-w", "-t", "120", "-o",
                           "-c listen_addresses= -c unix_socket_directories=%s -c fsync=off" % home, "start"],
                   cwd=home, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
    atexit.register(subprocess.run, user + [PG + "/pg_ctl", "-D", home + "/data", "-m", "immediate", "-w", "stop"],
                    cwd="/", env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return {"ENGINE": "django.db.backends.postgresql_psycopg2", "NAME": "postgres", "USER": "postgres", "HOST": home}


def mysql(d):
    home = os.path.join(d, "my")
    os.mkdir(home)
    os.mkdir(home + "/tmp")
    shutil.chown(home, "mysql", "mysql")
    shutil.chown(home + "/tmp", "mysql", "mysql")
    run(["/usr/bin/mariadb-install-db", "--no-defaults", "--user=mysql", "--datadir=" + home + "/data",
         "--auth-root-authentication-method=normal", "--skip-test-db", "--tmpdir=" + home + "/tmp"], cwd=home)
    log = open(home + "/log", "wb")
    p = subprocess.Popen(["/usr/sbin/mariadbd", "--no-defaults", "--user=mysql", "--datadir=" + home + "/data",
                          "--socket=" + home + "/sock", "--pid-file=" + home + "/pid", "--skip-networking",
                          "--character-set-server=utf8mb4", "--tmpdir=" + home + "/tmp"], cwd=home, env=env(), stdout=log, stderr=log)

    def stop():
        p.kill()
        p.wait()
    atexit.register(stop)
    for _ in range(600):
        if subprocess.run(["/usr/bin/mariadb-admin", "--no-defaults", "-uroot", "-S", home + "/sock", "ping"],
                          env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            break
        time.sleep(0.1)
    import MySQLdb
    MySQLdb.connect(unix_socket=home + "/sock", user="root").cursor().execute(
        "CREATE DATABASE demo CHARACTER SET utf8mb4")
    return {"ENGINE": "django.db.backends.mysql", "NAME": "demo", "USER": "root", "HOST": home + "/sock",
            "OPTIONS": {"charset": "utf8mb4", "init_command": "SET sql_mode='STRICT_TRANS_TABLES'"}}


def start(backend="sqlite", **extra):
    """Configures Django; models can be declared (app_label "demo") afterwards."""
    sys.path.insert(0, os.getcwd())
    d = scratch()
    db = {"sqlite": lambda d: {"ENGINE": "django.db.backends.sqlite3", "NAME": os.path.join(d, "db")},
          "postgres": postgres, "mysql": mysql}[backend](d)
    os.mkdir(os.path.join(d, "demo"))
    open(os.path.join(d, "demo", "__init__.py"), "w").close()
    sys.path.insert(0, d)
    import warnings
    warnings.simplefilter("ignore")
    from django.conf import settings
    dbs = {"default": db, "second": dict(db)}
    settings.configure(DATABASES=dbs, SECRET_KEY="x", USE_TZ=False, LOGGING_CONFIG=None,
                       INSTALLED_APPS=["django.contrib.contenttypes", "denorm", "demo"], **extra)
    import django
    django.setup()
    from django.core.management import call_command
    call_command("migrate", verbosity=0)
    import denorm
    assert os.path.realpath(denorm.__file__).startswith(os.path.realpath(os.getcwd())), denorm.__file__
    return d


def tables(*models):
    from django.db import connection
    with connection.schema_editor() as ed:
        for m in models:
            ed.create_model(m)


def meta(**kw):
    return type("Meta", (), dict(kw, app_label="demo"))


def same(what, got, want):
    if got != want:
        print("%s: got %r, want %r" % (what, got, want))
        sys.exit(1)
