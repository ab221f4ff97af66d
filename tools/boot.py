"""Common part of the demonstrations: Django on a scratch database, a few tree models, tools to build and show trees.

boot("sqlite") or boot("pg") configures everything; the library is imported from the current directory.
"""

import atexit
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

from django.apps import AppConfig

BIN = "/usr/lib/postgresql/16/bin"


def _postgres():
    work = tempfile.mkdtemp(prefix="demopg.")
    os.chmod(work, 0o755)
    d = os.path.join(work, "pg")
    subprocess.check_call(["install", "-d", "-o", "postgres", "-g", "postgres", "-m", "700", d])
    env = {"HOME": d, "PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8"}

    def run(*cmd):
        subprocess.run(["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups", *cmd], cwd=d, env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)  # fmt: skip

    def stop(pid=os.getpid()):
        if pid != os.getpid():
            return
        try:
            run(f"{BIN}/pg_ctl", "-w", "-m", "immediate", "-D", f"{d}/data", "stop")
        finally:
            shutil.rmtree(work, ignore_errors=True)

    atexit.register(stop)
    run(f"{BIN}/initdb", "-D", f"{d}/data", "-U", "treebeard", "--auth=trust", "-E", "UTF8", "--locale=C.UTF-8", "--no-sync")
    run(f"{BIN}/pg_ctl", "-w", "-t", "120", "-D", f"{d}/data", "-l", f"{d}/log",
        "-o", f"-k {d} -c listen_addresses='' -c fsync=off", "start")  # fmt: skip
    return d


class DemoConfig(AppConfig):
    name, label = "boot", "demo"


class M:
    """The models, once boot() has run."""


def boot(engine="sqlite", second=False, routers=(), urlconf=None):
    sys.path.insert(0, os.getcwd())
    sys.dont_write_bytecode = True
    import django
    from django.conf import settings

    if engine == "pg":
        db = {"ENGINE": "django.db.backends.postgresql", "NAME": "postgres", "USER": "treebeard", "HOST": _postgres()}
    else:
        db = {"ENGINE": "django.db.backends.sqlite3", "NAME": ":memory:"}
    dbs = {"default": db}
    if second:
        dbs["other"] = {"ENGINE": "django.db.backends.sqlite3", "NAME": ":memory:"}
    settings.configure(
        DATABASES=dbs, DATABASE_ROUTERS=list(routers), SECRET_KEY="x", USE_TZ=True, ALLOWED_HOSTS=["*"],
        INSTALLED_APPS=["django.contrib.auth", "django.contrib.contenttypes", "django.contrib.sessions",
                        "django.contrib.admin", "django.contrib.messages", "treebeard", "boot.DemoConfig"],
        MIDDLEWARE=["django.contrib.sessions.middleware.SessionMiddleware",
                    "django.contrib.auth.middleware.AuthenticationMiddleware",
                    "django.contrib.messages.middleware.MessageMiddleware"],
        ROOT_URLCONF=urlconf or "boot", STATIC_URL="/static/", DEFAULT_AUTO_FIELD="django.db.models.BigAutoField",
        MESSAGE_STORAGE="django.contrib.messages.storage.cookie.CookieStorage",
        SESSION_ENGINE="django.contrib.sessions.backends.signed_cookies", LOGGING_CONFIG=None,
        TEMPLATES=[{"BACKEND": "django.template.backends.django.DjangoTemplates", "DIRS": [], "APP_DIRS": True,
                    "OPTIONS": {"context_processors": ["django.contrib.auth.context_processors.auth",
                                                       "django.template.context_processors.request",
                                                       "django.contrib.messages.context_processors.messages"]}}],
    )  # fmt: skip
    django.setup()
    warnings.simplefilter("ignore")
    import treebeard

    assert os.path.realpath(treebeard.__file__).startswith(os.path.realpath(os.getcwd()) + os.sep), treebeard.__file__
    from django.db import connections, models

    from treebeard.al_tree import AL_Node
    from treebeard.mp_tree import MP_Node
    from treebeard.ns_tree import NS_Node

    def make(name_, /, *bases, **attrs):
        meta = type("Meta", (), {"app_label": "demo", **attrs.pop("_meta", {})})
        m = type(name_, bases, {"__module__": "demo.models", "Meta": meta, "__str__": lambda self: self.name, **attrs})
        setattr(M, name_, m)
        return m

    name = lambda: models.CharField(max_length=50, default="")  # noqa: E731
    val = lambda: models.IntegerField(default=0)  # noqa: E731

    def family(k, Base, **more):
        extra = lambda: {f: v() for f, v in more.items()}  # noqa: E731
        make(k, Base, name=name(), **extra())
        make(k + "Sort", Base, name=name(), val=val(), node_order_by=["val", "name"], **extra())
        make(k + "Desc", Base, name=name(), val=val(), node_order_by=["-val"], **extra())
        make(k + "Child", getattr(M, k), extra=models.CharField(max_length=9, default="x"))
        make(k + "Proxy", getattr(M, k), _meta={"proxy": True})

    family("MP", MP_Node)
    make("MPTiny", MP_Node, name=name(), steplen=1, alphabet="0123", path=models.CharField(max_length=3, unique=True))
    make("MPTinySort", MP_Node, name=name(), val=val(), steplen=1, alphabet="0123456789", node_order_by=["val"])
    family("NS", NS_Node)
    for k, so in (("AL", True), ("ALSort", False), ("ALDesc", False)):
        attrs = {"name": name(), "parent": models.ForeignKey("self", null=True, db_index=True, on_delete=models.CASCADE, related_name="children_set")}
        if so:
            attrs["sib_order"] = models.PositiveIntegerField()
        else:
            attrs["val"] = val()
            attrs["node_order_by"] = ["val", "name"] if k == "ALSort" else ["-val"]
        make(k, AL_Node, **attrs)
    make("ALChild", M.AL, extra=models.CharField(max_length=9, default="x"))
    make("ALProxy", M.AL, _meta={"proxy": True})
    if engine == "pg":
        from treebeard.ltree import LT_Node

        with connections["default"].cursor() as c:
            c.execute("CREATE EXTENSION IF NOT EXISTS ltree")
        family("LT", LT_Node)
    for alias in dbs:
        with connections[alias].schema_editor() as ed:
            from django.apps import apps

            for label in ("contenttypes", "auth", "admin"):
                for m in apps.get_app_config(label).get_models():
                    ed.create_model(m)
            for m in vars(M).values():
                if isinstance(m, type) and issubclass(m, models.Model) and not m._meta.proxy:
                    ed.create_model(m)


def grow(model, spec, parent=None, **kw):
    """spec: "a(b c(d)) e" -> adds the nodes depth first; in sorted trees a name may carry its value: a=3."""
    tokens = spec.replace("(", " ( ").replace(")", " ) ").split()
    made, stack, last = {}, [parent], None
    for t in tokens:
        if t == "(":
            stack.append(last)
        elif t == ")":
            stack.pop()
        else:
            n, _, v = t.partition("=")
            data = {"name": n, **({"val": int(v)} if v else {})}
            p = stack[-1]
            if p is None:
                last = model.objects.add_root(data)
            else:
                last = model.objects.add_child(model.objects.get(pk=p.pk), data)
            made[n] = last.pk
    return made


def extra_model(name_, base, **attrs):
    """One more model, with its table."""
    from django.db import connection, models

    meta = type("Meta", (), {"app_label": "demo", **attrs.pop("_meta", {})})
    attrs.setdefault("name", models.CharField(max_length=50, default=""))
    m = type(name_, (base,), {"__module__": "demo.models", "Meta": meta, "__str__": lambda self: self.name, **attrs})
    with connection.schema_editor() as ed:
        ed.create_model(m)
    setattr(M, name_, m)
    return m


def node(model, name):
    return model.objects.get(name=name)


def show(model):
    """The tree in the notation of grow(), read through get_tree() and get_depth()."""
    out, depth = "", 0
    for n in model.objects.get_tree():
        d = model.objects.get(pk=n.pk).get_depth()
        if d > depth:
            out += "(" * (d - depth)
        else:
            out += ")" * (depth - d) + " "
        out += n.name
        depth = d
    out += ")" * depth
    return out[1:-1]


def same(got, want, what=""):
    if got != want:
        print(f"FAIL {what}: got {got!r}, expected {want!r}")
        sys.stdout.flush()
        sys.exit(1)
    print(f"ok {what}: {got!r}")


urlpatterns = []
