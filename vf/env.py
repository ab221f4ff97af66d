"""Process set-up: Django configured against /repo's treebeard, one database per process."""

import os
import sys

REPO = os.environ.get("VF_REPO", "/repo")
ENGINE = None


def setup(engine="sqlite", dbname=None, pg=None, sqlite_name=":memory:"):
    """Configure Django in this process.

    engine  sqlite (in-memory, private to the process) or pg
    dbname  database of the throw-away PostgreSQL cluster
    pg      socket directory of that cluster
    """
    global ENGINE
    if ENGINE is not None:
        return
    ENGINE = engine
    sys.dont_write_bytecode = True
    os.environ["VF_ENGINE"] = engine
    os.environ.pop("DJANGO_SETTINGS_MODULE", None)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import django
    from django.conf import settings

    if engine == "pg":
        dbs = {
            "default": {
                "ENGINE": "django.db.backends.postgresql",
                "NAME": dbname,
                "USER": "treebeard",
                "HOST": pg,
                "CONN_MAX_AGE": None,
            }
        }
    else:
        dbs = {
            "default": {
                "ENGINE": "django.db.backends.sqlite3",
                "NAME": sqlite_name,
                "OPTIONS": {"timeout": 30},
            }
        }
    if os.environ.get("VF_ROUTED") and engine == "pg":
        dbs["tree"] = dict(dbs["default"], NAME=dbname + "_tree")
    elif os.environ.get("VF_ROUTED"):
        dbs["tree"] = {"ENGINE": "django.db.backends.sqlite3", "NAME": ":memory:"}
    settings.configure(
        DATABASES=dbs,
        DATABASE_ROUTERS=["vf.routed.Router"] if os.environ.get("VF_ROUTED") else [],
        SECRET_KEY="vf",
        DEBUG=False,
        USE_TZ=True,
        INSTALLED_APPS=[
            "django.contrib.auth",
            "django.contrib.contenttypes",
            "django.contrib.sessions",
            "django.contrib.admin",
            "django.contrib.messages",
            "treebeard",
            "vf.app.apps.VfConfig",
        ],
        MIDDLEWARE=[
            "django.contrib.sessions.middleware.SessionMiddleware",
            "django.contrib.auth.middleware.AuthenticationMiddleware",
            "django.contrib.messages.middleware.MessageMiddleware",
        ],
        ROOT_URLCONF="vf.urls",
        STATIC_URL="/static/",
        ALLOWED_HOSTS=["*"],
        MESSAGE_STORAGE="django.contrib.messages.storage.cookie.CookieStorage",
        SESSION_ENGINE="django.contrib.sessions.backends.signed_cookies",
        PASSWORD_HASHERS=["django.contrib.auth.hashers.MD5PasswordHasher"],
        TEMPLATES=[
            {
                "BACKEND": "django.template.backends.django.DjangoTemplates",
                "DIRS": [],
                "APP_DIRS": True,
                "OPTIONS": {
                    "context_processors": [
                        "django.contrib.auth.context_processors.auth",
                        "django.template.context_processors.request",
                        "django.contrib.messages.context_processors.messages",
                    ],
                },
            },
        ],
        DEFAULT_AUTO_FIELD="django.db.models.BigAutoField",
        LOGGING_CONFIG=None,
    )
    django.setup()
    import treebeard

    path = os.path.realpath(treebeard.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"treebeard imported from {path}, not from {REPO}")
    import warnings

    warnings.simplefilter("ignore")


def create_tables(alias="default"):
    from django.apps import apps
    from django.db import connections

    conn = connections[alias]
    if conn.vendor == "postgresql":
        with conn.cursor() as c:
            c.execute("CREATE EXTENSION IF NOT EXISTS ltree")
    have = set(conn.introspection.table_names())
    with conn.schema_editor() as ed:
        for label in ("contenttypes", "auth", "admin", "vf"):
            for m in apps.get_app_config(label).get_models():
                if m._meta.proxy or m._meta.db_table in have:
                    continue
                ed.create_model(m)
