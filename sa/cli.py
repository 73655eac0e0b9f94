"""A model of argparse: positionals, options, subparsers, defaults.

Follows parse_known_args of CPython: defaults of the actions, then of
set_defaults; the subparser fills a namespace of its own which is copied over
the parent's."""
from __future__ import annotations

from .interp import AbsRaise, Undecided
from .libs import N, ext
from .values import ADict, ExcVal, ExtClass, ExtObj, is_str, mkstr, show

NAMESPACE = ExtClass("argparse.Namespace")
PARSER = ExtClass("argparse.ArgumentParser")
SUPPRESS = "==SUPPRESS=="


def namespace(i, a, kw):
    return ExtObj(NAMESPACE, **kw)


NAMESPACE.make = namespace


class Action:
    def __init__(self, names, kw):
        self.flags = [n for n in names if n.startswith("-")]
        self.action = kw.get("action", "store")
        self.nargs = kw.get("nargs")
        self.kw = kw
        if kw.get("dest") is not None:
            self.dest = kw["dest"]
        elif self.flags:
            long = [f for f in self.flags if f.startswith("--")]
            self.dest = (long or self.flags)[0].lstrip("-").replace("-", "_")
        else:
            self.dest = names[0]
        self.default = kw.get("default")
        if self.action == "store_true":
            self.default = kw.get("default", False)
        elif self.action == "store_false":
            self.default = kw.get("default", True)
        elif self.action not in ("store", "store_const", "help", "version"):
            raise Undecided(f"argparse action {show(self.action)}")

    def convert(self, ip, p, v):
        t = self.kw.get("type")
        if t is not None:
            try:
                v = ip.call(t, [v], {})
            except AbsRaise as e:
                if isinstance(e.exc, ExcVal) and issubclass(e.exc.cls, (ValueError, TypeError)):
                    error(ip, p, f"invalid value for {self.dest}")
                raise
        ch = self.kw.get("choices")
        if ch is not None and not any(ip.eq(v, c) for c in ip.iterate(ch)):
            error(ip, p, f"invalid choice for {self.dest}")
        return v


class Sub:
    def __init__(self, kw):
        self.map = {}
        self.dest = kw.get("dest", SUPPRESS)
        self.required = kw.get("required", False)


def write(ip, target, text):
    ip.call(ip.getattr(target, "write"), [text], {})


def std(ip, name):
    return ip.getattr(ip.import_module("sys"), name)


def error(ip, p, message):
    write(ip, std(ip, "stderr"), f"usage of {p.prog}: error: {message}\n")
    raise AbsRaise(ExcVal(SystemExit, (2,)))


class Parser:
    def __init__(self, prog, kw):
        for k in kw:
            if k in ("parents", "fromfile_prefix_chars", "prefix_chars", "argument_default", "conflict_handler"):
                raise Undecided(f"ArgumentParser({k}=)")
        self.prog = prog
        self.actions, self.sub, self.defaults = [], None, {}
        self.help = kw.get("add_help", True)

    # -- parsing
    def parse(self, ip, args, ns=None):
        """namespace, extra arguments"""
        ns = ns or ExtObj(NAMESPACE)
        for a in self.actions:
            if isinstance(a, Sub):
                if a.dest != SUPPRESS and a.dest not in ns.attrs:
                    ns.attrs[a.dest] = None
            elif a.dest not in ns.attrs and a.default != SUPPRESS and a.action not in ("help", "version"):
                ns.attrs[a.dest] = a.default
        for k, v in self.defaults.items():
            ns.attrs.setdefault(k, v)
        args = list(args)
        pos = [a for a in self.actions if isinstance(a, Sub) or not a.flags]
        seen, extra, only = set(), [], False
        flags = {f: a for a in self.actions if not isinstance(a, Sub) for f in a.flags}
        while args:
            x = args.pop(0)
            lit = x if isinstance(x, str) else None
            if lit is None and not is_str(x):
                raise Undecided(f"argument {show(x)}")
            if lit == "--" and not only:
                only = True
                continue
            if lit is not None and lit.startswith("-") and len(lit) > 1 and not only and not _number(lit):
                if lit in ("-h", "--help") and self.help:
                    write(ip, std(ip, "stdout"), f"usage: help of {self.prog}\n")
                    raise AbsRaise(ExcVal(SystemExit, (0,)))
                name, eq, val = lit.partition("=")
                a = flags.get(lit) or flags.get(name)
                if a is None:
                    cand = {id(flags[f]): flags[f] for f in flags if f.startswith(name)}
                    a = next(iter(cand.values())) if len(cand) == 1 and name.startswith("--") else None
                if a is None:
                    extra.append(x)
                    continue
                seen.add(id(a))
                if a.action == "store_true" or a.action == "store_false":
                    ns.attrs[a.dest] = a.action == "store_true"
                elif a.action == "store_const":
                    ns.attrs[a.dest] = a.kw.get("const")
                elif a.action in ("help", "version"):
                    write(ip, std(ip, "stdout"), f"{a.action} of {self.prog}\n")
                    raise AbsRaise(ExcVal(SystemExit, (0,)))
                elif a.nargs is not None:
                    raise Undecided("option with nargs")
                elif eq:
                    ns.attrs[a.dest] = a.convert(ip, self, val)
                elif args:
                    ns.attrs[a.dest] = a.convert(ip, self, args.pop(0))
                else:
                    error(ip, self, "expected one argument")
                continue
            if not pos:
                extra.append(x)
                continue
            a = pos.pop(0)
            if isinstance(a, Sub):
                if lit is None or lit not in a.map:
                    error(ip, self, f"invalid choice: {show(x)}")
                if a.dest != SUPPRESS:
                    ns.attrs[a.dest] = lit
                sub_ns, sub_extra = a.map[lit].parse(ip, args)
                ns.attrs.update(sub_ns.attrs)
                extra += sub_extra
                args = []
                seen.add(id(a))
                continue
            if a.nargs is None or a.nargs == "?":
                if a.nargs == "?" and any(not isinstance(p, Sub) and p.nargs is None for p in pos) and len(args) < len(pos):
                    raise Undecided("optional positional before others")
                ns.attrs[a.dest] = a.convert(ip, self, x)
            elif a.nargs in ("*", "+") and not pos:
                ns.attrs[a.dest] = [a.convert(ip, self, y) for y in [x] + args]
                args = []
            elif isinstance(a.nargs, int):
                if len(args) < a.nargs - 1:
                    error(ip, self, f"expected {a.nargs} arguments")
                ns.attrs[a.dest] = [a.convert(ip, self, y) for y in [x] + args[: a.nargs - 1]]
                del args[: a.nargs - 1]
            else:
                raise Undecided(f"nargs {show(a.nargs)}")
        for a in pos:
            if isinstance(a, Sub):
                if a.required:
                    error(ip, self, "a command is required")
            elif a.nargs is None or a.nargs == "+" or isinstance(a.nargs, int):
                error(ip, self, f"the argument {a.dest} is required")
            elif a.nargs == "*" and a.default is None:
                ns.attrs[a.dest] = []
        for a in self.actions:
            if not isinstance(a, Sub) and a.flags and a.kw.get("required") and id(a) not in seen:
                error(ip, self, f"the argument {a.dest} is required")
        return ns, extra


def _number(s):
    try:
        float(s)
    except ValueError:
        return False
    return True


def parser_object(i, p):
    o = ExtObj(PARSER, prog=p.prog)

    def add_argument(i, a, kw):
        if not all(isinstance(x, str) for x in a):
            raise Undecided("name of an argument")
        act = Action(list(a) or [kw["dest"]], kw)
        if act.dest in p.defaults:
            act.default = p.defaults[act.dest]
        p.actions.append(act)
        return ExtObj(ExtClass("argparse.Action"), dest=act.dest)

    def set_defaults(i, a, kw):
        p.defaults.update(kw)
        for act in p.actions:
            if not isinstance(act, Sub) and act.dest in kw:
                act.default = kw[act.dest]

    def get_default(i, a, kw):
        for act in p.actions:
            if not isinstance(act, Sub) and act.dest == a[0] and act.default is not None:
                return act.default
        return p.defaults.get(a[0])

    def add_subparsers(i, a, kw):
        if p.sub is not None:
            error(i, p, "cannot have multiple subparser arguments")
        if kw.get("parser_class") is not None or kw.get("action") is not None:
            raise Undecided("add_subparsers")
        p.sub = Sub(kw)
        p.actions.append(p.sub)

        def add_parser(i, a, kw):
            q = Parser(f"{p.prog} {a[0]}", kw)
            for n in [a[0], *i.iterate(kw.get("aliases", ()))]:
                p.sub.map[n] = q
            return parser_object(i, q)

        return ExtObj(ExtClass("argparse._SubParsersAction"), add_parser=N("add_parser", add_parser))

    def args_of(i, a, kw):
        v = a[0] if a else kw.get("args")
        if v is None:
            v = list(i.iterate(std(i, "argv")))[1:]
        ns = a[1] if len(a) > 1 else kw.get("namespace")
        return p.parse(i, list(i.iterate(v)), ns)

    def parse_args(i, a, kw):
        ns, extra = args_of(i, a, kw)
        if extra:
            error(i, p, f"unrecognized arguments: {show(extra)}")
        return ns

    def printer(what, default):
        def fn(i, a, kw):
            f = a[0] if a else kw.get("file")
            write(i, std(i, default) if f is None else f, f"usage: {what} of {p.prog}\n")

        return fn

    def exit_(i, a, kw):
        status = a[0] if a else kw.get("status", 0)
        msg = a[1] if len(a) > 1 else kw.get("message")
        if msg:
            write(i, std(i, "stderr"), msg)
        raise AbsRaise(ExcVal(SystemExit, (status,)))

    o.attrs.update(
        add_argument=N("add_argument", add_argument),
        set_defaults=N("set_defaults", set_defaults),
        get_default=N("get_default", get_default),
        add_subparsers=N("add_subparsers", add_subparsers),
        parse_args=N("parse_args", parse_args),
        parse_known_args=N("parse_known_args", lambda i, a, kw: args_of(i, a, kw)),
        print_help=N("print_help", printer("help", "stdout")),
        print_usage=N("print_usage", printer("usage", "stdout")),
        format_help=N("format_help", lambda i, a, kw: f"usage: help of {p.prog}\n"),
        format_usage=N("format_usage", lambda i, a, kw: f"usage: usage of {p.prog}\n"),
        error=N("error", lambda i, a, kw: error(i, p, a[0] if isinstance(a[0], str) else show(a[0]))),
        exit=N("exit", exit_),
        add_argument_group=N("add_argument_group", lambda i, a, kw: o),
    )
    return o


PARSER.make = lambda i, a, kw: parser_object(i, Parser(kw.get("prog") or "the program", kw))
ext("argparse").update(ArgumentParser=PARSER, Namespace=NAMESPACE, SUPPRESS=SUPPRESS)


def namespace_dict(ip, o):
    d = ADict()
    for k, v in o.attrs.items():
        ip.dict_set(d, k, v)
    return d


def text(parts):
    return mkstr(*parts) if parts else ""
