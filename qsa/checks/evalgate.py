"""Deserialization evaluates text only if the expression grammar accepts it, in a namespace of expressions, and the grammar admits constructor calls only."""
from __future__ import annotations

import re
try:
    from re import _parser as sre
except ImportError:
    import sre_parse as sre

from ..util import *

SER = "qadence.serialization"
SINKS = {"builtins.eval", "builtins.exec", "builtins.compile", "builtins.__import__", "os.system", "os.popen", "subprocess.run", "subprocess.Popen", "subprocess.call", "subprocess.check_output", "pickle.loads", "pickle.load", "marshal.loads",
         "sympy.sympify", "sympy.parse_expr", "sympy.parsing.sympy_parser.parse_expr", "sympy.S"}
X, Y = "Parameter('x', trainable=True, value=True)", "Parameter('y', trainable=False)"
ACCEPT = [X, Y, "Parameter('t', trainable=False, is_time=True)", "Parameter('my.par_1', value=True)", f"Add({X}, {Y})", f"Mul(Float('3.5', precision=53), Pow(sin({X}), Integer(2)))", f"acos({Y})", f"Mul(Rational(1, 3), {X})", f"Mul(Integer(-1), {X})",
          f"Add(Mul(Integer(2), {X}), Integer(-7))", f"Mul({X}, pi)", f"exp(Mul(I, {X}))", f"Pow({X}, Rational(1, 2))", f"Mul(Rational(1, 2), log({Y}))", f"Add(Mul(Integer(4), Pow({Y}, Integer(3))), Mul(Integer(-1), Integer(3), {Y}))",
          f"Abs({X})", f"Max(Integer(2), {X})", "Integer(3)", "Integer(0)", "Float('0.10000000000000001', precision=53)", "Float('1.0000000000000001e-30', precision=53)", "Float('-1.0e+22', precision=53)", f"Mul(E, {X})", f"tanh({X})", "pi", "E", "I",
          "Rational(-2, 7)", "Float('1.0', precision=53)", f"Add(Mul(Integer(4), acos(Mul(Float('0.5', precision=53), {Y}))), atan2({X}, {Y}))", "Mul(Float('2.0',precision=53), Parameter('theta_0'))", f"log(Add({X}, Mul({Y}, sin({X}))))",
          f"Pow(Add({X}, {Y}), Integer(-1))", "Symbol('x')", "Parameter('p_12', trainable=True, value=False)", "Integer(10)", "Float('-0.33261030434342942', precision=53)"]
REJECT = ["", "2*3", "__import__('os').system('ls -la')", "x", "os.system('ls')", "Integer(1).__class__", "Integer(1); x", "Integer(1) + Integer(2)", "Integer(1))", "Integer(1)(2)", "(Integer(1))", "[Integer(1)]", "{Integer(1)}", "lambda: 1", "lambda x: x", "Add(Integer(1), x.y(2))",
          "Add(*x)", "Add(**x)", "Add(x)", "Parameter('a'+'b')", "Parameter('a b')", "Parameter('a;b')", "Parameter('a(b)')", "Parameter('a\"b')", "Parameter('a\\'b')", 'Parameter("a")', "Parameter(f'a')", "_Integer(1)", "__Integer(1)", "Integer.a(1)", "Integer(1) if True else Integer(2)",
          "Integer(1) and Integer(2)", "Integer((1, 2))", "Integer(a:=1)", "Integer(1)\nInteger(2)", "Integer(1) #", "Integer[1]", "getattr(Integer, 'a')", "Integer(1, lambda: 2)", "Integer(-1).x", "Add(Integer(1) Integer(2))", "Parameter('__import__(1)')", "Float('1+1')", "Integer(1**2)", "Integer(1 if 1 else 2)",
          "not Integer(1)", "-Integer(1)", "Parameter('a', value=x)", "Parameter('a', value=open('b'))", "Parameter('a', _x=True)", "print()", "Add(Integer(1),)", "`x`", "pi.x", "pi(1)(2)", "E.__class__"]


class Grammar:
    """a parsing-expression grammar in the textual form arpeggio's cleanpeg reads"""

    def __init__(self, text):
        self.rules, self.order = {}, []
        text = re.sub(r"(?m)^\s*(//|#).*$", "", text)
        toks = re.findall(r'r"(?:[^"\\]|\\.)*"|r\'(?:[^\'\\]|\\.)*\'|"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|<-|[A-Za-z_]\w*|[=/*+?()!&;,|]|\S', text)
        i, n = 0, len(toks)
        while i < n:
            name = toks[i]
            if i + 1 >= n or toks[i + 1] not in ("=", "<-") or not re.match(r"[A-Za-z_]\w*$", name):
                raise ValueError(f"cannot read the grammar at {toks[i:i + 4]}")
            j = i + 2
            while j < n and not (j + 1 < n and toks[j + 1] in ("=", "<-") and re.match(r"[A-Za-z_]\w*$", toks[j])):
                j += 1
            body = [t for t in toks[i + 2:j] if t != ";"]
            e, k = self.choice(body, 0)
            if k != len(body):
                raise ValueError(f"cannot read rule {name} at {body[k:k + 3]}")
            self.rules[name] = e
            self.order.append(name)
            i = j

    def choice(self, t, i):
        alts = []
        while True:
            seq = []
            while i < len(t) and t[i] not in (")", "/", "|"):
                e, i = self.suffix(t, i)
                seq.append(e)
            alts.append(("seq", seq) if len(seq) != 1 else seq[0])
            if i < len(t) and t[i] in ("/", "|"):
                i += 1
                continue
            return (("alt", alts) if len(alts) > 1 else alts[0]), i

    def suffix(self, t, i):
        if t[i] in ("!", "&"):
            e, j = self.suffix(t, i + 1)
            return ("not" if t[i] == "!" else "and", e), j
        if t[i] == "(":
            e, i = self.choice(t, i + 1)
            if i >= len(t) or t[i] != ")":
                raise ValueError("unbalanced group")
            i += 1
        else:
            w = t[i]
            i += 1
            if w[:2] in ('r"', "r'"):
                e = ("re", w[2:-1])
            elif w[0] in "'\"":
                e = ("lit", w[1:-1].encode().decode("unicode_escape"))
            elif re.match(r"[A-Za-z_]\w*$", w):
                e = ("eof",) if w == "EOF" else ("ref", w)
            else:
                raise ValueError(f"unexpected {w}")
        while i < len(t) and t[i] in "*+?":
            e = (t[i], e)
            i += 1
        return e, i

    def terminals(self, start):
        seen, out, todo = set(), [], [("ref", start)]
        while todo:
            e = todo.pop()
            if e[0] == "ref":
                if e[1] not in seen:
                    seen.add(e[1])
                    if e[1] not in self.rules:
                        raise ValueError(f"undefined rule {e[1]}")
                    todo.append(self.rules[e[1]])
                    if self.rules[e[1]][0] in ("re", "lit"):
                        out.append((e[1], self.rules[e[1]]))
            elif e[0] in ("re", "lit"):
                out.append((None, e))
            elif e[0] in ("seq", "alt"):
                todo.extend(e[1])
            elif e[0] in ("*", "+", "?", "not", "and"):
                todo.append(e[1])
        return out

    def accepts(self, start, s):
        memo, busy = {}, set()

        def ws(i):
            while i < len(s) and s[i] in " \t\n\r":
                i += 1
            return i

        def m(e, i):
            k = e[0]
            if k == "ref":
                key = (e[1], i)
                if key not in memo:
                    if key in busy:
                        return None
                    busy.add(key)
                    memo[key] = m(self.rules[e[1]], i)
                    busy.discard(key)
                return memo[key]
            if k == "seq":
                for x in e[1]:
                    i = m(x, i)
                    if i is None:
                        return None
                return i
            if k == "alt":
                for x in e[1]:
                    j = m(x, i)
                    if j is not None:
                        return j
                return None
            if k in "*+":
                n = 0
                while True:
                    j = m(e[1], i)
                    if j is None or j == i:
                        break
                    i, n = j, n + 1
                return i if k == "*" or n else None
            if k == "?":
                j = m(e[1], i)
                return i if j is None else j
            if k in ("not", "and"):
                j = m(e[1], i)
                return i if (j is None) == (k == "not") else None
            i = ws(i)
            if k == "eof":
                return i if i == len(s) else None
            if k == "lit":
                return i + len(e[1]) if s.startswith(e[1], i) else None
            r = re.compile(e[1], re.M).match(s, i)
            return None if r is None else r.end()

        return m(("ref", start), 0) is not None


def alphabet(rx):
    """(characters any position of the regex can match, characters the first position can match), over printable ASCII"""
    def chars(op, av):
        s = set()
        if op is sre.LITERAL:
            s.add(chr(av))
        elif op is sre.NOT_LITERAL:
            s |= {chr(c) for c in range(1, 127)} - {chr(av)}
        elif op is sre.ANY:
            s |= {chr(c) for c in range(1, 127)} - {"\n"}
        elif op is sre.IN:
            neg = False
            for o, a in av:
                if o is sre.NEGATE:
                    neg = True
                elif o is sre.LITERAL:
                    s.add(chr(a))
                elif o is sre.RANGE:
                    s |= {chr(c) for c in range(a[0], a[1] + 1)}
                elif o is sre.CATEGORY:
                    pat = {sre.CATEGORY_DIGIT: r"\d", sre.CATEGORY_WORD: r"\w", sre.CATEGORY_SPACE: r"\s", sre.CATEGORY_NOT_DIGIT: r"\D", sre.CATEGORY_NOT_WORD: r"\W", sre.CATEGORY_NOT_SPACE: r"\S"}[a]
                    s |= {chr(c) for c in range(1, 127) if re.match(pat, chr(c))}
            if neg:
                s = {chr(c) for c in range(1, 127)} - s
        return s

    def go(p):
        every, first, empty = set(), set(), True
        for op, av in p:
            if op in (sre.LITERAL, sre.NOT_LITERAL, sre.ANY, sre.IN):
                a = f = chars(op, av)
                e = False
            elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
                a, f, e = go(av[2])
                e = e or av[0] == 0
            elif op is sre.SUBPATTERN:
                a, f, e = go(av[-1])
            elif op is sre.BRANCH:
                rs = [go(x) for x in av[1]]
                a, f, e = set().union(*(r[0] for r in rs)), set().union(*(r[1] for r in rs)), any(r[2] for r in rs)
            elif op in (sre.AT, sre.ASSERT, sre.ASSERT_NOT):
                continue
            else:
                raise ValueError(f"regex construct {op}")
            every |= a
            if empty:
                first |= f
            empty = empty and e
        return every, first, empty

    a, f, _ = go(sre.parse(rx))
    return a, f


WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
LETTERS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")


def bad_terminal(e):
    """why this terminal of the grammar admits more than names, numbers, punctuation and plain quoted text, or None"""
    if e[0] == "lit":
        t = e[1]
        if re.fullmatch(r"[A-Za-z][A-Za-z0-9_]*|[(),=+\-]|", t):
            return None
        return f"literal {t!r}"
    rx = e[1]
    a, f = alphabet(rx)
    if f & {"'", '"'}:
        q = f
        if not q <= {"'", '"'}:
            return f"regex {rx!r} starts with a quote or something else"
        inner = a - q
        if rx[0] != rx[-1] or rx[0] in rx[1:-1]:
            return f"regex {rx!r}: quote in the middle"
        extra = inner - WORD - set(".+-")
        return f"quoted text may contain {sorted(extra)}" if extra else None
    if a <= set("0123456789.+-eE"):
        return None
    extra = a - WORD
    if extra:
        return f"regex {rx!r} admits {sorted(extra)} outside quotes"
    if not f <= LETTERS:
        return f"regex {rx!r} admits names starting with {sorted(f - LETTERS)}"
    return None


def check(ctx):
    ctx.rule("sink", "code-evaluating calls are made only by the expression deserializer and only with text the grammar accepted", 1)
    ctx.rule("reject", "text the grammar does not accept raises ValueError", 1)
    ctx.rule("namespace", "evaluation has no builtins and can refer only to sympy expressions and parameters", 1)
    ctx.rule("parser", "parse_expr_fn is true only if the grammar matched the given text", 2)
    ctx.rule("grammar", "the grammar is anchored and built from names, numbers, punctuation and plain quoted text", 8)
    ctx.rule("accept", "the grammar accepts the representation of expressions", len(ACCEPT))
    ctx.rule("refuse", "the grammar refuses anything but nested constructor calls", len(REJECT))
    for f in sinks(ctx):
        ctx.guard("sink", f.qual, lambda: gate(ctx, f))
    ctx.guard("parser", "parse_expr_fn", lambda: parser(ctx))


def sinks(ctx):
    """functions of the package that mention an evaluating call"""
    out = []
    for m in ctx.prog.modules.values():
        if not m.name.startswith("qadence"):
            continue
        for f in m.functions:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    nm = ast.unparse(n.func)
                    if nm in ("eval", "exec", "compile", "__import__") or nm in ("os.system", "os.popen", "pickle.loads", "pickle.load", "sympify", "sympy.sympify", "parse_expr", "sympy.parse_expr") or nm.startswith("subprocess."):
                        if f not in out:
                            out.append(f)
    return out


def callers(ctx, f):
    """functions through which f is reached with arguments of theirs (helpers are judged in their callers)"""
    out = []
    for m in ctx.prog.modules.values():
        for g in m.functions:
            if g is not f and any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == f.name or isinstance(n.func, ast.Attribute) and n.func.attr == f.name) for n in ast.walk(g.node)):
                out.append(g)
    return out


def gate(ctx, f):
    judged = judge(ctx, f, report=False)
    roots = [f]
    if any(ok is False for ok, *_ in judged):
        cs = callers(ctx, f)
        if cs:
            roots = cs
    for r in roots:
        for ok, what, detail, loc, t in judge(ctx, r):
            ctx.ob("sink", what, ok, detail, loc)
            if callee_qual(t) in ("builtins.eval", "builtins.exec"):
                namespace(ctx, t, what, loc)


def judge(ctx, f, report=True):
    I = ctx.interp(opaque=(SER + ".parse_expr_fn",), depth=6)
    ret, st = I.run(f)
    res = []
    for e in I.events:
        if e.kind == "call" and e.term.op == "call" and callee_qual(e.term) in SINKS:
            a = args_of(e.term)
            x = a.get(0) if 0 in a else next(iter(a.values()), None)
            what = f"{f.qual.replace('qadence.', '')}: {callee_qual(e.term)}"
            if x is None or is_const(x) or is_number_text(x):
                res.append((True, what, "", e.loc, e.term))
                continue
            if callee_qual(e.term) not in ("builtins.eval", "builtins.exec"):
                if callee_qual(e.term).startswith("sympy") and not texty(I, x):
                    continue
            ok = any(v is True and any(y.op == "call" and callee_qual(y) == SER + ".parse_expr_fn" and x in args_of(y).values() for y in walk(c)) and positive(c) for c, v in e.guards)
            res.append((ok, what, f"evaluates {show(x, 4)} without the grammar having accepted it", e.loc, e.term))
            if ok and report:
                bad = [l for l, g in leaves(ret) if any(v is False and positive(c) and any(y.op == "call" and callee_qual(y) == SER + ".parse_expr_fn" for y in walk(c)) for c, v in g)]
                if bad:
                    good = all(l.op == "raise" and "ValueError" in show(l, 3) for l in bad)
                    ctx.ob("reject", f.qual.replace("qadence.", ""), True if good else False, f"text outside the grammar gives {show(bad[0], 3)}", f.qual)
    return res


def is_number_text(x):
    return False


def texty(I, x):
    """may the argument be text from outside? (sympify of numbers and expressions is not evaluation of text)"""
    return x.op in ("sub", "joined") or is_const(x) and isinstance(cval(x), str)


def positive(c):
    return c.op != "not"


def namespace(ctx, t, what, loc):
    a = args_of(t)
    ns = a.get(1, a.get("globals"))
    if ns is None:
        return ctx.ob("namespace", what, False, "evaluated with the names of its module and all builtins", loc)
    items = list(flat(ns))
    if not any(is_const(k) and cval(k) == "__builtins__" for k, _ in items if k is not None):
        if any(k is None and v.op not in ("dmap", "dict") for k, v in items):
            return ctx.ob("namespace", what, None, f"namespace {show(ns, 3)}")
        return ctx.ob("namespace", what, False, "the namespace has no __builtins__ entry, so all builtins are reachable", loc)
    for k, v in items:
        if k is not None and is_const(k) and cval(k) == "__builtins__":
            if not (v is NONE or v.op == "dict" and not v.a[0]):
                return ctx.ob("namespace", what, False, f"__builtins__ is {show(v, 3)}", loc)
            continue
        if k is None:
            if v.op == "dmap":
                cond = v.a[3]
                if not basic_only(cond):
                    return ctx.ob("namespace", what, False, f"names are taken over without requiring an expression class: {show(v, 5)[:200]}", loc)
            elif v.op == "call" and callee_qual(v) in ("builtins.vars", "builtins.globals", "builtins.dir"):
                return ctx.ob("namespace", what, False, f"all names of {show(v, 3)} are reachable", loc)
            else:
                return ctx.ob("namespace", what, None, f"namespace part {show(v, 4)}")
        else:
            q = v.a[0] if v.op in ("ext", "cls", "fn") else None
            if v.op == "cls":
                c = ctx.prog.cls(q)
                if c is None or not any("sympy" in str(b) for b in c.mro if isinstance(b, str)):
                    return ctx.ob("namespace", what, False, f"{show(v, 2)} is not an expression class", loc)
            elif v.op == "ext" and (q.startswith("builtins.") or not q.startswith("sympy") or q.split(".")[-1] in ("sympify", "S", "parse_expr", "lambdify")):
                return ctx.ob("namespace", what, False, f"{q} is reachable", loc)
            elif v.op not in ("ext",):
                return ctx.ob("namespace", what, False if v.op == "fn" else None, f"{show(v, 3)} is reachable", loc)
    ctx.ob("namespace", what, True)


def flat(d):
    if d.op == "dict":
        for k, v in d.a[0]:
            if k.op == "spread":
                yield from flat(v)
            else:
                yield k, v
    elif d.op == "upd":
        yield from flat(d.a[0])
        yield d.a[1], d.a[2]
    else:
        yield None, d


def basic_only(c):
    """does the condition hold only for expressions and expression classes?"""
    if c.op == "or":
        return all(basic_only(x) for x in (c.a[0] if isinstance(c.a[0], tuple) else c.a))
    if c.op == "and":
        return any(basic_only(x) for x in (c.a[0] if isinstance(c.a[0], tuple) else c.a))
    if c.op in ("isinst", "issub"):
        tys = c.a[1] if isinstance(c.a[1], tuple) else (c.a[1],)
        names = [y.a[0] for x in tys if isinstance(x, T) for y in ([x] if x.op in ("ext", "cls") else walk(x)) if y.op in ("ext", "cls")]
        return bool(names) and all(n.startswith("sympy") and n.split(".")[-1] in ("Basic", "Expr", "Atom", "AtomicExpr", "Function", "Number") or n.startswith("qadence.parameters") for n in names)
    return False


def parser(ctx):
    f = ctx.fn(SER + ".parse_expr_fn")
    if f is None:
        return
    I = ctx.interp()
    ret, st = I.run(f)
    calls = [e for e in I.events if e.kind == "call" and e.term.op == "call" and callee_name(e.term) == "parse"]
    if not calls:
        return ctx.ob("parser", "parse", None, "no call to the parser found")
    code = P(f.params[0])
    for e in calls:
        x = next(iter(args_of(e.term).values()), None)
        ctx.ob("parser", "parse:text", x is code, f"parses {show(x, 4)} instead of the given text", e.loc)
    made = [e.term for e in I.events if e.kind == "call" and e.term.op == "call" and callee_name(e.term).startswith("ParserPEG")] + [x for e in calls for x in walk(e.term) if x.op == "call" and callee_name(x).startswith("ParserPEG")]
    # a true result needs the parse to have succeeded
    for l, g in leaves(ret):
        if l.op == "raise":
            continue
        conds = list(g)
        if l is FALSE:
            continue
        if l is TRUE:
            ok = any(c.op == "exc" and v is False for c, v in conds) or not any(c.op == "exc" for c, v in conds) and no_handler(f)
            ctx.ob("parser", "parse:result", True if ok else False, "true although the parser did not match", f.qual)
        elif l.op == "not" and l.a[0].op == "exc":
            ctx.ob("parser", "parse:result", True)
        elif l.op == "exc":
            ctx.ob("parser", "parse:result", False, "true exactly if the parser failed", f.qual)
        else:
            ctx.ob("parser", "parse:result", None, show(l, 4))
    start = "Program"
    for t in made:
        a = args_of(t)
        s = a.get(1, a.get("root_rule_name"))
        if s is not None and is_const(s):
            start = cval(s)
        for k in ("reduce_tree", "skipws", "ignore_case"):
            if k == "skipws" and a.get(k) is FALSE:
                return ctx.ob("grammar", "skipws", None, "whitespace handling")
    path = None
    import os
    for r, d, fs in os.walk(os.path.join(ctx.prog.root, "qadence")):
        for x in fs:
            if x.endswith(".peg"):
                path = os.path.join(r, x)
    if path is None:
        return ctx.ob("grammar", "file", None, "no grammar file")
    try:
        g = Grammar(open(path).read())
    except ValueError as e:
        return ctx.ob("grammar", "file", None, str(e))
    rel = os.path.relpath(path, ctx.prog.root)
    if start not in g.rules:
        return ctx.ob("grammar", "start", None, f"no rule {start}")
    top = g.rules[start]
    ctx.ob("grammar", "anchored", top[0] == "seq" and top[1][-1][0] == "eof" or not g.accepts(start, "Integer(1) x"), "text after the expression is not looked at", rel)
    for name, e in g.terminals(start):
        if name is None and any(e == x for n, x in g.terminals(start) if n is not None):
            continue
        why = bad_terminal(e)
        ctx.ob("grammar", f"{name or ''} {e[1]}", why is None, why, rel)
    for s in ACCEPT:
        ctx.ob("accept", s, g.accepts(start, s), "the grammar refuses the representation of an expression", rel)
    for s in REJECT:
        ctx.ob("refuse", s or "(empty)", not g.accepts(start, s), f"the grammar accepts {s!r}", rel)


def no_handler(f):
    return not any(isinstance(n, ast.Try) for n in ast.walk(f.node))
