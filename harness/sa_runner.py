# Executes generated SQLAlchemy modules against recording stand-ins and prints what they define as JSON.
import datetime as _dt
import json
import sys
import types

events = []


class Bad(Exception):
    pass


def _type(name, params):
    def init(self, *args, **kw):
        self.params = {}
        if len(args) > len(params):
            raise TypeError("%s takes at most %d arguments" % (name, len(params)))
        for p, a in zip(params, args):
            self.params[p] = a
        for k, v in kw.items():
            if k not in params or k in self.params:
                raise TypeError("%s got an unexpected argument %r" % (name, k))
            self.params[k] = v
    return type(name, (TypeEngine,), {"__init__": init})


class TypeEngine:
    pass


class TypeDecorator(TypeEngine):
    impl = None

    def __init__(self, *args, **kw):
        self.params = {}


sa = types.ModuleType("sqlalchemy")
for n, ps in {
    "String": ["length", "collation"], "Text": ["length", "collation"], "Unicode": ["length"], "UnicodeText": ["length"],
    "Boolean": ["create_constraint", "name"], "Integer": [], "BigInteger": [], "SmallInteger": [],
    "Numeric": ["precision", "scale", "decimal_return_scale", "asdecimal"],
    "Float": ["precision", "asdecimal", "decimal_return_scale"],
    "DateTime": ["timezone"], "Date": [], "Time": ["timezone"], "LargeBinary": ["length"],
}.items():
    setattr(sa, n, _type(n, ps))
sa.TypeDecorator = TypeDecorator


class Column:
    def __init__(self, *args, **kw):
        args = list(args)
        self.name = None
        self.type = None
        if args and isinstance(args[0], str):
            self.name = args.pop(0)
        if args:
            t = args.pop(0)
            if isinstance(t, type) and issubclass(t, TypeEngine):
                t = t()
            if not isinstance(t, TypeEngine):
                raise Bad("Column got %r as its type" % (t,))
            self.type = t
        if args:
            raise Bad("Column got extra arguments %r" % (args,))
        for k in kw:
            if k not in ("primary_key", "unique", "autoincrement", "nullable", "default", "onupdate", "comment", "index", "server_default"):
                raise Bad("Column got an unexpected argument %r" % k)
        self.kw = kw


class UniqueConstraint:
    def __init__(self, *cols, name=None):
        for c in cols:
            if not isinstance(c, str):
                raise Bad("UniqueConstraint got %r" % (c,))
        self.cols = list(cols)
        self.name = name
        self.used = False
        constraints.append(self)


constraints = []
classes = []
sa.Column = Column
sa.UniqueConstraint = UniqueConstraint


def val(v):
    if v == _dt.datetime.now:
        return "now"
    if v == _dt.datetime.utcnow:
        return "utcnow"
    return v


class Meta(type):
    def __init__(cls, name, bases, ns):
        super().__init__(name, bases, ns)
        if ns.get("_abstract_"):
            return
        if "metadata" in ns:
            raise Bad("Attribute name 'metadata' is reserved")
        if not isinstance(ns.get("__tablename__"), str):
            raise Bad("class %s has no __tablename__" % name)
        cols = []
        keys = {}
        for k, v in ns.items():
            if isinstance(v, Column):
                n = v.name if v.name is not None else k
                if n in keys:
                    raise Bad("class %s has column %s twice" % (name, n))
                keys[n] = 1
                cols.append({"attr": k, "name": n, "type": type(v.type).__name__ if v.type else "",
                             "params": v.type.params if v.type else {}, "kw": {a: val(b) for a, b in v.kw.items()}})
        if not any(c["kw"].get("primary_key") for c in cols):
            pass  # SQLAlchemy refuses a mapped class without primary key; the schema decides that
        uniq = []
        args = ns.get("__table_args__", ())
        if not isinstance(args, (tuple, dict)):
            raise Bad("__table_args__ of %s is a %s" % (name, type(args).__name__))
        for a in args if isinstance(args, tuple) else ():
            if isinstance(a, UniqueConstraint):
                a.used = True
                for c in a.cols:
                    if c not in keys:
                        raise Bad("the unique constraint of %s names %s, which is no column" % (name, c))
                uniq.append({"cols": a.cols, "name": a.name})
        classes.append({"class": name, "table": ns["__tablename__"], "columns": cols, "uniques": uniq})


def declarative_base(cls=object, **kw):
    return Meta("Base", (cls,) if isinstance(cls, type) else (), {"_abstract_": True})


ext = types.ModuleType("sqlalchemy.ext")
decl = types.ModuleType("sqlalchemy.ext.declarative")
decl.declarative_base = declarative_base
sa.ext = ext
ext.declarative = decl
rep = types.ModuleType("sqlalchemy_repr")


class RepresentableBase:
    pass


rep.RepresentableBase = RepresentableBase
sys.modules.update({"sqlalchemy": sa, "sqlalchemy.ext": ext, "sqlalchemy.ext.declarative": decl, "sqlalchemy_repr": rep})


def tz_check(cls):
    if not issubclass(cls, TypeDecorator) or cls.impl is not sa.DateTime:
        raise Bad("TZDateTime is no decorator of DateTime")
    x = cls()
    aware = _dt.datetime(2021, 1, 2, 3, 4, 5, tzinfo=_dt.timezone(_dt.timedelta(hours=9)))
    if x.process_bind_param(aware, None) != _dt.datetime(2021, 1, 1, 18, 4, 5):
        raise Bad("TZDateTime does not store UTC")
    if x.process_result_value(_dt.datetime(2021, 1, 1, 18, 4, 5), None) != aware:
        raise Bad("TZDateTime does not read UTC back")
    if x.process_bind_param(None, None) is not None or x.process_result_value(None, None) is not None:
        raise Bad("TZDateTime does not pass None through")
    try:
        x.process_bind_param(_dt.datetime(2021, 1, 1), None)
    except TypeError:
        return
    raise Bad("TZDateTime takes a naive datetime")


out = []
for path in sys.argv[1:]:
    classes.clear()
    constraints.clear()
    r = {"file": path}
    try:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        ns = {"__name__": "generated"}
        exec(compile(src, path, "exec"), ns)
        r["classes"] = [dict(c) for c in classes]
        r["floating"] = [c.name for c in constraints if not c.used]
        if "TZDateTime" in ns:
            tz_check(ns["TZDateTime"])
            r["tz"] = True
    except BaseException as e:
        r["error"] = "%s: %s" % (type(e).__name__, e)
    out.append(r)
json.dump(out, sys.stdout, default=repr)
