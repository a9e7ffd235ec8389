"""Backends for the five stores, each isolated in a scratch folder or in memory."""
from __future__ import annotations

import atexit
import os
import shutil
import subprocess
import tempfile
import time

KINDS = ("memory", "file", "sql", "redis", "mongo")
_scratch = None
_redis = None
_n = 0


def scratch():
    """A folder of this process, removed at its end."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        # in memory when possible: sqlite waits for its disk otherwise
        shm = "/dev/shm"
        fast = os.path.isdir(shm) and os.access(shm, os.W_OK) and shutil.disk_usage(shm).free > 200 << 20
        path = tempfile.mkdtemp(prefix="mc-", dir=shm if fast else None)
        _scratch = (os.getpid(), path)
        atexit.register(shutil.rmtree, path, True)
        import multiprocessing.util as mpu

        mpu.Finalize(None, shutil.rmtree, args=(path, True), exitpriority=1)
    return _scratch[1]


def _stop(p):
    p.kill()
    p.wait()


def _sched_redis():
    """Under a controlled scheduler other clients get their turn before every command a client sends."""
    import sys

    sched = sys.modules.get("mc.sched")
    if sched is None:
        return
    from redis.client import Pipeline
    from redis.connection import AbstractConnection

    if getattr(Pipeline, "one_by_one", None):
        return
    whole, send = Pipeline._execute_pipeline, AbstractConnection.send_packed_command

    def one_by_one(self, connection, commands, raise_on_error):
        # without a transaction the server serves others between the commands
        out = []
        for command in commands:
            out += whole(self, connection, [command], False)
        if raise_on_error:
            self.raise_first_error(commands, out)
        return out

    def send_packed_command(self, *args, **kwargs):
        if self._sock:  # not while it connects
            sched.point()
        return send(self, *args, **kwargs)

    Pipeline.one_by_one = True
    Pipeline._execute_pipeline = one_by_one
    AbstractConnection.send_packed_command = send_packed_command


def redis_socket():
    """Path of the socket of a redis server of this process, None without redis."""
    global _redis
    if _redis is None or _redis[0] != os.getpid():
        exe = shutil.which("redis-server")
        if exe is None:
            _redis = (os.getpid(), None)
            return None
        _sched_redis()
        d = scratch()
        sock = os.path.join(d, "r.sock")
        p = subprocess.Popen(
            [exe, "--port", "0", "--unixsocket", sock, "--save", "", "--appendonly", "no", "--dir", d, "--databases", "1024"],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"},
        )
        for _ in range(500):
            if os.path.exists(sock):
                break
            time.sleep(0.01)
        else:
            sock = None
        atexit.register(_stop, p)
        import multiprocessing.util as mpu

        mpu.Finalize(None, _stop, args=(p,), exitpriority=10)
        _redis = (os.getpid(), sock)
    return _redis[1]


class Cursor(list):
    pass


class FakeCollection:
    """The part of a mongo collection the store talks to, with mongo's comparison rules:
    a range condition never matches null or a missing field, null sorts first."""

    def __init__(self):
        self.docs = {}
        self.fail = None

    def _hook(self, op):
        if self.fail:
            self.fail(op)

    @staticmethod
    def _match(doc, cond):
        for k, want in (cond or {}).items():
            have = doc.get(k)
            if isinstance(want, dict):
                for op, arg in want.items():
                    if op == "$lte":
                        ok = have is not None and have <= arg
                    elif op == "$lt":
                        ok = have is not None and have < arg
                    elif op == "$gte":
                        ok = have is not None and have >= arg
                    elif op == "$gt":
                        ok = have is not None and have > arg
                    elif op == "$ne":
                        ok = have != arg
                    elif op == "$eq":
                        ok = have == arg
                    elif op == "$in":
                        ok = have in arg
                    elif op == "$exists":
                        ok = (k in doc) == bool(arg)
                    else:
                        raise NotImplementedError(op)
                    if not ok:
                        return False
            elif have != want:
                return False
        return True

    @staticmethod
    def _project(doc, projection):
        if not projection:
            return dict(doc)
        if isinstance(projection, dict):
            projection = [k for k, v in projection.items() if v]
        return {k: v for k, v in doc.items() if k in projection or k == "_id"}

    def create_index(self, *a, **k):
        self._hook("create_index")

    def find(self, filter=None, projection=None, sort=None, limit=0, **k):
        self._hook("find")
        docs = [d for d in self.docs.values() if self._match(d, filter)]
        for key, direction in reversed(sort or []):
            docs.sort(key=lambda d: (d.get(key) is not None, d.get(key) if d.get(key) is not None else 0), reverse=direction < 0)
        if limit:
            docs = docs[:limit]
        return [self._project(d, projection) for d in docs]

    def find_one(self, filter=None, projection=None, sort=None, **k):
        if filter is not None and not isinstance(filter, dict):
            filter = {"_id": filter}
        docs = self.find(filter, projection, sort)
        return docs[0] if docs else None

    def insert_one(self, doc):
        from pymongo.errors import DuplicateKeyError

        self._hook("insert_one")
        if doc["_id"] in self.docs:
            raise DuplicateKeyError("dup")
        self.docs[doc["_id"]] = {**doc}

    def update_one(self, filter, update, upsert=False):
        self._hook("update_one")
        hits = [d for d in self.docs.values() if self._match(d, filter)][:1]
        for d in hits:
            d.update(update.get("$set", {}))
            for k in update.get("$unset", {}):
                d.pop(k, None)
        if not hits and upsert:
            self.docs[filter["_id"]] = {**filter, **update.get("$set", {})}
        return type("R", (), {"matched_count": len(hits), "modified_count": len(hits)})()

    def replace_one(self, filter, doc, upsert=False):
        return self.update_one(filter, {"$set": doc}, upsert)

    def delete_one(self, filter):
        self._hook("delete_one")
        hits = [d["_id"] for d in self.docs.values() if self._match(d, filter)][:1]
        for h in hits:
            del self.docs[h]
        return type("R", (), {"deleted_count": len(hits)})()

    def delete_many(self, filter):
        self._hook("delete_many")
        hits = [d["_id"] for d in self.docs.values() if self._match(d, filter)]
        for h in hits:
            del self.docs[h]
        return type("R", (), {"deleted_count": len(hits)})()


class FakeMongo:
    def __init__(self):
        self.colls = {}

    def __getitem__(self, db):
        client = self

        class Db:
            def __getitem__(self, coll):
                return client.colls.setdefault((db, coll), FakeCollection())

        return Db()

    def close(self):
        pass

    def __repr__(self):
        return "FakeMongo"


class Backend:
    """A place tasks are kept in; open() gives a new store object on the same place."""

    real_journal = False  # sql: keep sqlite crash safe

    def __init__(self, kind):
        global _n
        _n += 1
        self.kind = kind
        self.n = _n
        if kind == "file":
            self.dir = os.path.join(scratch(), f"f{_n}")
        elif kind == "sql":
            self.path = os.path.join(scratch(), f"s{_n}.sqlite")
            self.engine = None
        elif kind == "redis":
            self.sock = redis_socket()
        elif kind == "mongo":
            self.client = FakeMongo()

    @staticmethod
    def available(kind):
        return kind != "redis" or redis_socket() is not None

    @property
    def durable(self):
        return self.kind != "memory"

    def open(self, **kw):
        if self.kind == "memory":
            from asyncz.stores.memory import MemoryStore

            return MemoryStore(**kw)
        if self.kind == "file":
            from asyncz.stores.file import FileStore

            return FileStore(self.dir, **kw)
        if self.kind == "sql":
            import sqlalchemy
            from sqlalchemy.pool import StaticPool

            from asyncz.stores.sqlalchemy import SQLAlchemyStore

            # one connection per store object, so that dispose() really ends it
            eng = sqlalchemy.create_engine(f"sqlite:///{self.path}", poolclass=StaticPool, connect_args={"check_same_thread": False})

            @sqlalchemy.event.listens_for(eng, "connect")
            def fast(conn, _):
                if self.real_journal:
                    return
                conn.execute("PRAGMA synchronous=OFF")
                conn.execute("PRAGMA journal_mode=MEMORY")

            return SQLAlchemyStore(database=eng, **kw)
        if self.kind == "redis":
            from asyncz.stores.redis import RedisStore

            return RedisStore(unix_socket_path=self.sock, tasks_key=f"t{self.n}", run_times_key=f"r{self.n}", **kw)
        if self.kind == "mongo":
            from asyncz.stores.mongo import MongoDBStore

            return MongoDBStore(client=self.client, **kw)
        raise ValueError(self.kind)

    # raw access: id -> stored bytes (what is at rest)
    def raw(self):
        if self.kind == "file":
            if not os.path.isdir(self.dir):
                return {}
            return {
                f[: -len(".task")]: open(os.path.join(self.dir, f), "rb").read() for f in os.listdir(self.dir) if f.endswith(".task") and not f.startswith(".")
            }
        if self.kind == "sql":
            import sqlite3

            con = sqlite3.connect(self.path)
            try:
                return {r[0]: bytes(r[1]) for r in con.execute("select id, state from asyncz_store")}
            finally:
                con.close()
        if self.kind == "redis":
            import redis

            c = redis.Redis(unix_socket_path=self.sock)
            out = {k.decode(): v for k, v in c.hgetall(f"t{self.n}").items()}
            c.close()
            return out
        if self.kind == "mongo":
            return {d["_id"]: bytes(d["state"]) for c in self.client.colls.values() for d in c.docs.values()}
        return {}

    def put_raw(self, ident, data):
        if self.kind == "file":
            with open(os.path.join(self.dir, ident + ".task"), "wb") as f:
                f.write(data)
        elif self.kind == "sql":
            import sqlite3

            con = sqlite3.connect(self.path)
            con.execute("update asyncz_store set state=? where id=?", (data, ident))
            con.commit()
            con.close()
        elif self.kind == "redis":
            import redis

            c = redis.Redis(unix_socket_path=self.sock)
            c.hset(f"t{self.n}", ident, data)
            c.close()
        elif self.kind == "mongo":
            for c in self.client.colls.values():
                if ident in c.docs:
                    c.docs[ident]["state"] = data

    def all_bytes(self):
        """Everything at rest, for searching plaintext."""
        if self.kind == "file":
            return b"".join(open(os.path.join(self.dir, f), "rb").read() for f in os.listdir(self.dir))
        if self.kind == "sql":
            return b"".join(self.raw().values())
        return b"".join(self.raw().values())

    def drop(self):
        if self.kind == "file":
            shutil.rmtree(self.dir, ignore_errors=True)
        elif self.kind == "sql":
            if os.path.exists(self.path):
                os.unlink(self.path)
        elif self.kind == "redis":
            import redis

            c = redis.Redis(unix_socket_path=self.sock)
            c.delete(f"t{self.n}", f"r{self.n}")
            c.close()


def sched_cls():
    from asyncz.schedulers.base import BaseScheduler

    class QuietScheduler(BaseScheduler):
        """Everything but the timer: nothing is processed unless the harness asks for it."""

        wakeups = 0

        def wakeup(self):
            self.wakeups += 1

    return QuietScheduler


def scheduler(backends=None, executors=None, **kw):
    """A scheduler without a timer, running tasks inline, on the given places."""
    from asyncz.executors.debug import DebugExecutor

    kw.setdefault("timezone", __import__("datetime").timezone.utc)
    if executors is None:
        executors = {"default": DebugExecutor()}
    stores = {alias: (b.open() if isinstance(b, Backend) else b) for alias, b in (backends or {}).items()}
    return sched_cls()(executors=executors, stores=stores, **kw)
