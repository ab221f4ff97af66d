"""A private, throw-away PostgreSQL cluster (unix socket only, inside a scratch directory)."""

import atexit
import os
import shutil
import subprocess
import tempfile
import time

BIN = "/usr/lib/postgresql/16/bin"


class Cluster:
    def __init__(self):
        self.work = tempfile.mkdtemp(prefix="vfpg.")
        os.chmod(self.work, 0o755)
        self.dir = os.path.join(self.work, "pg")
        self.owner = os.getpid()
        subprocess.check_call(["install", "-d", "-o", "postgres", "-g", "postgres", "-m", "700", self.dir])
        atexit.register(self.stop)
        self._run(
            f"{BIN}/initdb", "-D", f"{self.dir}/data", "-U", "treebeard", "--auth=trust",
            "-E", "UTF8", "--locale=C.UTF-8", "--no-sync",
        )  # fmt: skip
        self._run(
            f"{BIN}/pg_ctl", "-w", "-t", "120", "-D", f"{self.dir}/data", "-l", f"{self.dir}/log", "-o",
            f"-k {self.dir} -c listen_addresses='' -c fsync=off -c full_page_writes=off"
            " -c synchronous_commit=off -c max_connections=200 -c autovacuum=off -c jit=off"
            " -c shared_buffers=64MB -c deadlock_timeout=200ms",
            "start",
        )  # fmt: skip
        # the socket directory has to be reachable by root only: root passes anyway
        self.sock = self.dir

    def _run(self, *cmd):
        env = {"HOME": self.dir, "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C.UTF-8"}
        p = subprocess.run(
            ["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups", *cmd],
            cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True,
        ) if cmd[0].endswith("initdb") else subprocess.run(
            ["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups", *cmd],
            cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL, text=True,
        )  # fmt: skip
        if p.returncode:
            raise RuntimeError(f"{cmd[0]} failed: {p.returncode} {p.stdout or ''}")

    def connect(self, db="postgres"):
        import psycopg

        return psycopg.connect(host=self.sock, user="treebeard", dbname=db, autocommit=True)

    def createdb(self, name, template=None, icu=False):
        with self.connect() as c:
            c.execute(f'CREATE DATABASE "{name}"' + (f' TEMPLATE "{template}" STRATEGY file_copy' if template else "")
                      + (" TEMPLATE template0 LOCALE_PROVIDER icu ICU_LOCALE 'en-US'" if icu else ""))  # fmt: skip

    def stop(self):
        if os.getpid() != self.owner or not self.work:
            return
        work, self.work = self.work, None
        try:
            if os.path.exists(f"{self.dir}/data/postmaster.pid"):
                self._run(f"{BIN}/pg_ctl", "-w", "-m", "immediate", "-D", f"{self.dir}/data", "stop")
        except Exception:
            time.sleep(0.5)
        shutil.rmtree(work, ignore_errors=True)
