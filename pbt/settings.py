"""Django settings of one worker process; everything comes from the environment."""
import os

_backend = os.environ.get("PBT_DB", "sqlite")
_name = os.environ.get("PBT_NAME", ":memory:")
_host = os.environ.get("PBT_HOST", "")
_other = os.environ.get("PBT_OTHER", "")

_engines = {
    "sqlite": "django.db.backends.sqlite3",
    "mysql": "django.db.backends.mysql",
    "postgres": "django.db.backends.postgresql_psycopg2",
    "postgis": "django.contrib.gis.db.backends.postgis",
}


def _db(name):
    d = {"ENGINE": _engines[_backend], "NAME": name}
    if _backend in ("postgres", "postgis"):
        d.update(HOST=_host, USER="postgres", PASSWORD="")
    elif _backend == "mysql":
        d.update(HOST=_host, USER="root", PASSWORD="",
                 OPTIONS={"charset": "utf8mb4",
                          "init_command": "SET sql_mode='STRICT_TRANS_TABLES'"})
    return d


# "default" is what denorm works on; "second" is another connection to the same
# database; "other" is a different database.
DATABASES = {"default": _db(_name)}
if _backend != "sqlite" or _name != ":memory:":
    DATABASES["second"] = _db(_name)
if _other:
    DATABASES["other"] = _db(_other)

DEBUG = False
SECRET_KEY = "x"
USE_TZ = False
TIME_ZONE = "UTC"
LANGUAGE_CODE = "en-us"
USE_I18N = False
ALLOWED_HOSTS = ["*"]
ROOT_URLCONF = "pbt_urls"
CACHES = {"default": {"BACKEND": "django.core.cache.backends.locmem.LocMemCache",
                      "OPTIONS": {"MAX_ENTRIES": 1000000}}}
INSTALLED_APPS = [
    "django.contrib.contenttypes",
    "genapp.apps.GenConfig",
    "genapp2.apps.Gen2Config",
    "denorm",
]
LOGGING_CONFIG = None
SILENCED_SYSTEM_CHECKS = []
if os.environ.get("PBT_BULK_UNSAFE"):
    DENORM_BULK_UNSAFE_TRIGGERS = True
