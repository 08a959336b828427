"""C09: deserializing untrusted expressions never runs code (interpreter audit hook as the monitor)."""
from __future__ import annotations

import io
import json
import os
import shutil
import sys
import tempfile

import sympy

import qadence as qd
from qadence import serialization
from qadence.serialization import deserialize, load, parse_expr_fn, serialize

from .. import build, gen, ref

ID = "C09"
CASES = {"quick": 3000, "thorough": 60000}
RULE = (
    "hostile expression strings (calls of builtins and module names with grammar-conforming arguments, attribute chains, "
    "operators, comprehensions, lambdas, nested inside genuine expressions, mutated genuine expressions) given as bare "
    "expressions, inside block/circuit/model dictionaries and .json files; audit hook + canaries observe; genuine expressions "
    "interleaved must still be accepted; non-trivial: hostile"
)
MIN_EVENTS = {"hostile": 1000, "rejected": 800, "genuine_accepted": 300, "in_block": 200, "in_file": 60, "audited": 1000}
ASSUMPTIONS = ["observed effects: audit events (open for writing/canary, os/subprocess/socket/shutil/pickle, input, "
               "breakpoint), exits, output, canary files, environment, result type; CPU exhaustion is out of scope"]

STATE = {"on": False, "events": [], "canary": "\0", "n": 0}
BAD_OS = {"system", "remove", "rename", "rmdir", "mkdir", "chmod", "chown", "exec", "fork", "forkpty", "posix_spawn", "spawn", "putenv",
          "unsetenv", "kill", "killpg", "truncate", "symlink", "link", "chdir", "utime", "startfile", "setxattr"}
BAD_MOD = {"antigravity", "this", "webbrowser", "ftplib", "smtplib", "pty", "vf_canary_mod", "turtle", "nntplib"}


class Audit(Exception):
    pass


def hook(event, args):
    if not STATE["on"]:
        return
    STATE["n"] += 1
    bad = None
    if event == "open":
        path, mode = str(args[0]), str(args[1] or "r")
        if any(c in mode for c in "wax+") or "canary" in path:
            bad = f"open({path!r}, {mode!r})"
    elif event.startswith("os."):
        if event[3:] in BAD_OS:
            bad = event
    elif event.startswith(("subprocess.", "socket.", "shutil.", "pickle.", "pty.", "webbrowser.", "urllib.")):
        bad = event
    elif event in ("builtins.input", "builtins.breakpoint", "sys.addaudithook"):
        bad = event
    elif event == "import":
        if str(args[0]).split(".")[0] in BAD_MOD:
            bad = f"import {args[0]}"
    if bad:
        STATE["events"].append(bad)
        raise Audit(bad)


def init_worker():
    sys.addaudithook(hook)


CALLS = ["open", "exec", "eval", "exit", "quit", "input", "print", "compile", "getattr", "setattr", "delattr", "globals", "vars", "dir",
         "breakpoint", "help", "iter", "map", "type", "super", "object", "bytes", "bytearray", "str", "list", "dict", "tuple", "repr", "format",
         "load", "save", "serialize", "deserialize", "load_pt", "load_json", "save_pt", "save_json", "Path", "getLogger", "file_extension",
         "QNN", "QuantumModel", "QuantumCircuit", "Register", "tag", "lambdify", "sympify", "parse_expr", "preview", "plot", "source", "system",
         "import_module", "ModelSerialization", "ExpressionSerialization", "init_printing", "init_session", "interactive_traversal", "test", "doctest",
         "cd", "run", "os", "sys", "torch", "json", "nn", "Module"]


def hostile(r, canary):
    """A string that is not a genuine serialized expression."""
    c = os.path.basename(canary)
    x = r.random()
    arg = r.choice([f"'{c}'", f"'{c}', mode='w'", f"'{c}', 'w'", "1", "0", "'1'", "'os'", "'os.system'", "'vf_canary_mod'", "'exit'", "'globals'",
                    "Integer(1)", "Parameter('x')", f"'{c}.pt'", f"'{c}.json'", "'x', 'y'", "'torch', 'load'", "sep='x'"])
    if x < 0.5:
        return f"{r.choice(CALLS)}({arg})"
    if x < 0.75:
        return r.choice([
            f"__import__('os').system('touch {canary}')", f"open('{canary}','w').write('x')", "(lambda: exit(1))()",
            f"[open('{canary}','w') for i in range(1)]", "Parameter.__new__.__globals__['os']", "().__class__.__bases__[0].__subclasses__()",
            f"exec(\"open('{canary}','w')\")", f"eval('open(\\'{canary}\\',\\'w\\')')", "2*3", "1+1", "1", "'x'", "x", "Parameter", "Integer",
            "Integer.__new__", "Integer(1).func", "Integer(1) if True else exit(1)", "Integer(1); exit(1)", "Integer(1)\nexit(1)",
            "Integer(1) # c", "Integer(*[1])", "Integer(**dict())", "f'{exit(1)}'", "Integer(1) or exit(1)", "not Integer(1)", "-Integer(1)",
            "Integer(1) == Integer(1)", "(y := Integer(1))", "Integer(1),", "[Integer(1)]", "{Integer(1)}", "Integer(1)[0]", "", " ", "()",
            f"getattr(__import__('os'), 'remove')('{canary}')", "__builtins__", "globals()", "Integer()", "exit()", "quit()", "input()",
            "Integer(1).__class__.__mro__", "sys.exit(1)", "os.getcwd()", "torch.load('x')", "S('exit(1)')", "sympify('exit(1)')",
            f"Add(Integer(1), open('{c}'))", "Symbol('x').subs(1, exit(1))", "Mul(exec('1'), Integer(1))", "Parameter(exit(1))",
            "Parameter('x', value=exit(1))", "Parameter(\"x\")", "Parameter('x y')", "Parameter('x;y')", "Parameter('__import__(os)')",
            "Float('1', precision=exit(1))", "Integer('1+1')", "Float('1e5', dps=15)", "Parameter('x', trainable=exit(1))",
        ])
    g = sympy.srepr(build.param(gen.P(r, 1, 1).expr(2), {k: 0.3 for k in ["theta", "th_0", "th_1", "w", "alpha", "zeta_12"]}))
    inj = f"{r.choice(CALLS)}({arg})"
    if x < 0.9:
        # replace one argument of a genuine expression by a call
        i = g.find("(")
        return g[: i + 1] + inj + ", " + g[i + 1 :] if r.random() < 0.5 else g[:-1] + ", " + inj + ")"
    return r.choice([g + inj, g + "." + inj, g + "; " + inj, inj + g, g.replace("(", "(" + inj + ", ", 1), g + " + " + g, "[" + g + "]", g + "()"])


def observe(mon, fn, what, text, tmp, files):
    """Run fn under the monitor; returns (value, exception)."""
    out, env = io.StringIO(), dict(os.environ)
    so, se = sys.stdout, sys.stderr
    cwd = os.getcwd()
    builtins_before = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
    val = exc = None
    STATE["events"].clear()
    n0 = STATE["n"]
    os.chdir(tmp)
    sys.stdout = sys.stderr = out
    STATE["on"] = True
    try:
        val = fn()
    except BaseException as e:  # SystemExit included
        if type(e).__name__ == "CaseTimeout":
            raise
        exc = e
    finally:
        STATE["on"] = False
        sys.stdout, sys.stderr = so, se
        os.chdir(cwd)
    mon.ev("audited")
    mon.ev("audit_events", STATE["n"] - n0)
    if STATE["events"]:
        mon.fail(f"{what}: deserializing {text!r} performed {STATE['events']}")
    mon.check(not isinstance(exc, (SystemExit, KeyboardInterrupt, GeneratorExit)), "no_exit", f"{what}: deserializing {text!r} raised {exc!r}")
    mon.check(out.getvalue() == "", "no_output", f"{what}: deserializing {text!r} printed {out.getvalue()[:80]!r}")
    mon.check(dict(os.environ) == env, "env", f"{what}: environment changed by {text!r}")
    now = {f: open(os.path.join(tmp, f), "rb").read() for f in os.listdir(tmp)}
    mon.check(now == files, "files", f"{what}: files changed by {text!r}")
    b = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
    mon.check(b == builtins_before, "builtins", "builtins changed")
    return val, exc


def case(r, idx, mon):
    tmp = tempfile.mkdtemp(prefix="vf_c09_")
    try:
        canary = os.path.join(tmp, "canary.txt")
        files = {"canary.txt": b"alive", "canary.txt.json": b"{}", "canary.txt.pt": b"cos\nsystem\n(S'true'\ntR."}
        for f, t in files.items():
            open(os.path.join(tmp, f), "wb").write(t)
        p = gen.P(r, 1, 1)
        where = r.choice(["bare", "bare", "block", "circuit", "model", "file"])
        if r.random() < 0.25:
            sp = p(2) if where == "bare" else p.expr(1)
            e = build.param(sp, p.vvals)
            if isinstance(e, (int, float)):
                e = sympy.sympify(e)
            text = sympy.srepr(e)
            mon.case(dict(genuine=text, where=where), False)
            good = True
        else:
            text, good = hostile(r, canary), False
            mon.case(dict(hostile=text, where=where))
            mon.ev("hostile")
        syms = {k: {"name": k, "trainable": "True", "value": "0.5"} for k in ["x", "y", "phi", "a_1", "feat", "w0", "theta", "th_0", "th_1", "w",
                                                                              "alpha", "zeta_12"]}
        ed = {"name": "e", "expression": text, "symbols": syms}

        def inject(d):
            """replace the expression of the first parameter map found"""
            if isinstance(d, dict):
                if "_name_dict" in d:
                    k = next(iter(d["_name_dict"]))
                    d["_name_dict"][k] = [d["_name_dict"][k][0], ed]
                    return True
                return any(inject(v) for v in d.values())
            if isinstance(d, (list, tuple)):
                return any(inject(v) for v in d)
            return False

        blk = qd.chain(qd.RX(0, qd.VariationalParameter("w", value=0.5)), qd.CNOT(0, 1)) if r.random() < 0.5 else 2.0 * qd.Z(0)
        if where == "bare":
            d, fn = ed, (lambda: deserialize(ed))
        elif where in ("block", "file"):
            d = json.loads(json.dumps(serialize(blk)))
        elif where == "circuit":
            d = json.loads(json.dumps(serialize(qd.QuantumCircuit(2, blk))))
        else:
            d = json.loads(json.dumps(serialize(qd.QuantumModel(qd.QuantumCircuit(2, qd.RX(0, "w")), 2.0 * qd.Z(0)))))
        if where != "bare":
            if not inject(d):
                raise AssertionError("harness: no parameter found")
            if where == "file":
                td = tempfile.mkdtemp(prefix="vf_c09f_")
                path = os.path.join(td, "obj.json")
                json.dump(d, open(path, "w"))
                fn = lambda: load(path)  # noqa: E731
                mon.ev("in_file")
            else:
                fn = lambda: deserialize(d)  # noqa: E731
                mon.ev("in_block")
        try:
            val, exc = observe(mon, fn, where, text, tmp, files)
        finally:
            if where == "file":
                shutil.rmtree(td, ignore_errors=True)
        if good:
            mon.check(exc is None, "genuine_accepted", f"{where}: genuine expression {text!r} rejected: {exc!r}")
            mon.check(parse_expr_fn(text) is True, "genuine_accepted", f"parse_expr_fn rejects {text!r}")
            if where == "bare":
                mon.check(isinstance(val, sympy.Basic) and sympy.srepr(val) == text, "genuine_accepted", f"{text!r} became {val!r}")
            return
        mon.ev("rejected", int(exc is not None))
        if where == "bare" and exc is None:
            mon.check(isinstance(val, sympy.Basic), "result_type", f"deserializing {text!r} returned a {type(val)}")
        ok, ex2 = observe(mon, lambda: parse_expr_fn(text), "parse", text, tmp, files)
        mon.check(ex2 is None and isinstance(ok, bool), "parse", f"parse_expr_fn({text!r}) raised {ex2!r}")
        if any(c in text for c in "+*;[]{}#\n") or "lambda" in text or "__" in text or ")." in text or "%" in text:
            mon.check(ok is False, "parse", f"the grammar accepts {text!r}")
            mon.check(exc is not None, "parse", f"{text!r} was evaluated")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
