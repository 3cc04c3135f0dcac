"""Puts /repo, this directory and Hypothesis on the path and starts Django."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def paths():
    sys.path[:] = [p for p in sys.path if p not in ("", HERE, REPO)]
    sys.path[:0] = [REPO, HERE]
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    sys.dont_write_bytecode = True
    # Hypothesis would look for its own directory in the working directory
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = "/nonexistent"


def django(migrate=True):
    paths()
    os.environ["DJANGO_SETTINGS_MODULE"] = "settings"
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import django
    django.setup()
    import denorm
    assert os.path.realpath(denorm.__file__).startswith(os.path.realpath(REPO) + os.sep), denorm.__file__
    if migrate:
        from django.conf import settings
        from django.core.management import call_command
        for alias in settings.DATABASES:
            if alias == "second":
                continue
            call_command("migrate", database=alias, verbosity=0, interactive=False)


def create_database(backend, name, host):
    if backend in ("postgres", "postgis"):
        import psycopg2
        c = psycopg2.connect(host=host, user="postgres", dbname="postgres")
        c.autocommit = True
        c.cursor().execute('CREATE DATABASE "%s"' % name)
        c.close()
        if backend == "postgis":
            c = psycopg2.connect(host=host, user="postgres", dbname=name)
            c.autocommit = True
            c.cursor().execute("CREATE EXTENSION postgis")
            c.close()
    elif backend == "mysql":
        import MySQLdb
        c = MySQLdb.connect(unix_socket=host, user="root")
        c.cursor().execute("CREATE DATABASE `%s` CHARACTER SET utf8mb4" % name)
        c.close()
