"""A small interpreter of the part of Julia the package's sources are written in, enough to run them against the
library built from the working tree.  What it does not know raises Unsupported; what Julia would refuse raises JuliaError."""
import ctypes, math, os, re
import numpy as np
np.seterr(all="ignore")

class Unsupported(Exception): pass
class JuliaError(Exception): pass

# ---------------------------------------------------------------- lexer
TOKEN = re.compile(r'''
  (?P<space>[ \t\r]+|\#=.*?=\#|\#[^\n]*)
 |(?P<newline>\n)
 |(?P<string>"""(?:\\.|[^\\])*?"""|"(?:\\.|[^"\\])*")
 |(?P<hex>0x[0-9a-fA-F]+)
 |(?P<number>(?:\d[\d_]*\.(?![.*/^+\-'=&|<>\\])\d*|\.\d+|\d[\d_]*)(?:[eE][+-]?\d+)?)
 |(?P<name>@?[^\W\d][\w!]*)
 |(?P<op>\.\.\.|===|!==|\.==|\.!=|\.<=|\.>=|->|=>|::|<:|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|\^=|\.\+=|\.\*=|\|>|//|\.\+|\.-|\.\*|\./|\.\^|\.<|\.>|\.=|[-+*/^%÷√<>=!?:;,.(){}\[\]&|~$\\'≤≥≠∈])
''', re.X | re.S)
KEYWORDS = set("module baremodule end using import export struct mutable function return if elseif else for while begin let const do in true false global local break continue macro quote abstract primitive try catch finally where nothing isa".split())

class Tok:
    __slots__ = ("kind", "text", "gap", "line")
    def __init__(s, kind, text, gap, line): s.kind, s.text, s.gap, s.line = kind, text, gap, line
    def __repr__(s): return f"{s.text!r} (line {s.line})"

def lex(source):
    out, i, gap, line = [], 0, False, 1
    while i < len(source):
        m = TOKEN.match(source, i)
        if not m: raise Unsupported(f"character {source[i]!r} at line {line}")
        kind, text = m.lastgroup, m.group()
        if kind == "space": gap = True
        else:
            if kind == "name" and text in KEYWORDS: kind = "key"
            out.append(Tok(kind, text, gap, line))
            gap = kind == "newline"
        line += text.count("\n")
        i = m.end()
    out.append(Tok("eof", "", True, line))
    return out

# ---------------------------------------------------------------- parser: tuples ("kind", ...)
class Parser:
    def __init__(s, source): s.t, s.i, s.nest = lex(source), 0, [False]
    def skip(s):
        while s.t[s.i].kind == "newline": s.i += 1
    def peek(s):
        if s.nest[-1]: s.skip()
        return s.t[s.i]
    def next(s): k = s.peek(); s.i += 1; return k
    def at(s, *texts): k = s.peek(); return k.kind in ("op", "key") and k.text in texts
    def accept(s, *texts):
        if s.at(*texts): return s.next()
    def expect(s, text):
        k = s.next()
        if k.text != text or k.kind not in ("op", "key"): raise Unsupported(f"{k!r} where {text!r} was expected")
        return k
    def name(s):
        k = s.next()
        if k.kind != "name": raise Unsupported(f"{k!r} where a name was expected")
        return k.text
    def inside(s, inner, f):
        s.nest.append(inner); r = f(); s.nest.pop(); return r
    def block(s, *ends):
        s.nest.append(False)
        out = []
        while True:
            while s.t[s.i].kind == "newline" or s.at(";"): s.i += 1
            if s.at(*ends): break
            if s.peek().kind == "eof":
                if not ends: break
                raise JuliaError(f"unexpected end of the file, no {ends}")
            if not ends and s.at("end"): raise JuliaError(f"extra end at line {s.peek().line}")
            out.append(s.statement())
            k = s.t[s.i]
            if not (k.kind in ("newline", "eof") or k.text == ";" or s.at(*ends)): raise Unsupported(f"{k!r} after a statement")
        s.nest.pop()
        return out
    def program(s): return s.block()
    def statement(s):
        k = s.peek()
        if k.kind == "key":
            f = getattr(s, "s_" + k.text, None)
            if f: s.i += 1; return f()
        if k.kind == "name" and k.text.startswith("@") and k.text not in ("@__FILE__", "@__DIR__"): raise Unsupported(f"macro {k!r}")
        return s.expression()
    def s_module(s): n = s.name(); b = s.block("end"); s.expect("end"); return ("module", n, b)
    def path(s):
        dots = 0
        while True:
            k = s.t[s.i]
            if k.kind == "op" and k.text in (".", "..."): dots += len(k.text); s.i += 1
            else: break
        names = [s.name()]
        while s.accept("."): names.append(s.name())
        return dots, names
    def imports(s):
        items = [s.path()]; picks = None
        if s.accept(":"):
            picks = []
            while True:
                s.skip()
                picks.append(s.name())
                if not s.accept(","): break
        else:
            while s.accept(","): s.skip(); items.append(s.path())
        return ("import", items, picks)
    s_using = s_import = imports
    def s_export(s):
        s.name()
        while s.accept(","): s.skip(); s.name()
        return ("nothing",)
    def s_const(s): return s.expression()
    def s_global(s): return ("global", s.expression())
    def s_local(s): return ("local", s.expression())
    def s_return(s):
        k = s.t[s.i]
        if k.kind in ("newline", "eof") or k.text in (";", "end"): return ("return", ("nothing",))
        return ("return", s.commas())
    def s_break(s): return ("break",)
    def s_continue(s): return ("continue",)
    def s_mutable(s): s.expect("struct"); return s.s_struct()
    def s_struct(s):
        n = s.name()
        if s.at("<:", "{"): raise Unsupported("struct with parameters or a supertype")
        fields = []
        for x in s.block("end"):
            if x[0] == "string": continue
            if x[0] == "name": fields.append((x[1], None))
            elif x[0] == "typed" and x[1][0] == "name": fields.append((x[1][1], x[2]))
            else: raise Unsupported("inner constructor")
        s.expect("end")
        return ("struct", n, fields)
    def s_function(s):
        n = None
        if s.peek().kind == "name":
            n = s.name()
            if s.at("."): raise Unsupported("method of another module")
        params = s.params()
        ret = None
        if s.accept("::"): ret = s.postfix()
        if s.at("where"): raise Unsupported("where")
        b = s.block("end"); s.expect("end")
        return ("function", n, params, ret, ("block", b))
    def params(s):
        s.expect("(")
        def inner():
            out, key = [], False
            while not s.at(")"):
                if s.accept(";"): key = True; continue
                n = s.name(); t = d = None; rest = False
                if s.accept("::"): t = s.postfix()
                if s.accept("..."): rest = True
                if s.accept("="): d = s.expression()
                out.append((n, t, d, key, rest))
                if not s.accept(",") and not s.at(")", ";"): raise Unsupported(f"{s.peek()!r} in parameters")
            return out
        out = s.inside(True, inner)
        s.inside(True, lambda: s.expect(")"))
        return out
    def s_if(s):
        c = s.inside(False, s.expression); b = s.block("elseif", "else", "end"); other = []
        if s.accept("elseif"): other = [s.s_if()]; return ("if", c, ("block", b), ("block", other))
        if s.accept("else"): other = s.block("end")
        s.expect("end")
        return ("if", c, ("block", b), ("block", other))
    def s_for(s):
        loops = s.loops(); b = s.block("end"); s.expect("end")
        r = ("block", b)
        for v, it in reversed(loops): r = ("for", v, it, r)
        return r
    def loops(s):
        out = []
        while True:
            v = s.primary()
            if not (s.accept("=") or s.accept("in") or s.accept("∈")): raise Unsupported("for loop")
            out.append((v, s.expression()))
            if not s.accept(","): return out
    def s_while(s): c = s.expression(); b = s.block("end"); s.expect("end"); return ("while", c, ("block", b))
    def s_begin(s): b = s.block("end"); s.expect("end"); return ("block", b)
    def s_let(s):
        heads = []
        while s.t[s.i].kind != "newline" and not s.at(";"):
            heads.append(s.expression())
            if not s.accept(","): break
        b = s.block("end"); s.expect("end")
        return ("let", heads, ("block", b))
    # expressions
    def commas(s):
        x = s.expression()
        if not s.at(","): return x
        out = [x]
        while s.accept(","): s.skip(); out.append(s.expression())
        return ("tuple", out)
    def expression(s):
        left = s.ternary()
        if s.at(",") and not s.nest[-1] and left[0] in ("name",):        # a, b = ...
            j = s.i; names = [left]
            while s.accept(","): s.skip(); names.append(s.ternary())
            if s.at("=") and all(n[0] == "name" for n in names): left = ("tuple", names)
            else: s.i = j
        k = s.accept("=", "+=", "-=", "*=", "/=", "^=")
        if not k:
            if s.at(".=", ".+=", ".*="): raise Unsupported("broadcast assignment")
            return left
        s.skip()
        right = s.statement() if s.at("if", "begin", "let") else (s.commas() if not s.nest[-1] else s.expression())
        if k.text != "=": right = ("op", k.text[:-1], left, right)
        if k.text == "=" and left[0] == "call" and left[1][0] == "name" and not left[3]:
            return ("function", left[1][1], [s.as_param(x) for x in left[2]], None, right)
        if k.text == "=" and left[0] == "typed" and left[1][0] == "call":
            return ("function", left[1][1][1], [s.as_param(x) for x in left[1][2]], left[2], right)
        return ("assign", left, right)
    def as_param(s, x):
        if x[0] == "name": return (x[1], None, None, False, False)
        if x[0] == "typed" and x[1][0] == "name": return (x[1][1], x[2], None, False, False)
        if x[0] == "assign" and x[1][0] == "name": return (x[1][1], None, x[2], False, False)
        if x[0] == "splat" and x[1][0] == "name": return (x[1][1], None, None, False, True)
        raise Unsupported("parameter")
    def ternary(s):
        c = s.binary(0)
        if s.accept("?"):
            s.skip(); a = s.ternary_branch(); s.skip(); s.expect(":"); s.skip(); b = s.ternary_branch()
            return ("if", c, a, b)
        return c
    def ternary_branch(s):
        s.noranges = getattr(s, "noranges", 0) + 1
        x = s.ternary()
        s.noranges -= 1
        return x
    LEVELS = [["||"], ["&&"], ["==", "!=", "<", ">", "<=", ">=", "===", "!==", "≤", "≥", "≠", ".==", ".<", ".>", ".<=", ".>=", ".!=", "in", "isa", "∈"], ["|>"], [":"], ["+", "-", ".+", ".-"], ["*", "/", "%", "÷", ".*", "./", "\\"], ["//"]]
    def binary(s, level):
        if level == len(s.LEVELS): return s.unary()
        x = s.binary(level + 1)
        chain = []
        while True:
            k = s.peek()
            if k.kind not in ("op", "key") or k.text not in s.LEVELS[level]: break
            if k.text == ":" and (getattr(s, "noranges", 0) or getattr(s, "stopcolon", 0)): break
            if k.text == "in" and getattr(s, "stopin", 0): break
            if s.matrix_gap(k): break
            s.next(); s.skip()
            y = s.binary(level + 1)
            if level == 2: chain.append((k.text, y))
            elif k.text in ("||", "&&"): x = ("andor", k.text, x, y)
            elif k.text == "|>": x = ("call", y, [x], [], None)
            elif k.text == ":": x = ("range", x, y, None) if x[0] != "range" or x[3] is not None else ("range", x[1], y, x[2])
            else: x = ("op", k.text, x, y)
        if chain:
            if len(chain) == 1: return ("op", chain[0][0], x, chain[0][1])
            return ("chain", x, chain)
        return x
    def matrix_gap(s, k):
        # inside [ ] a space before and none after an operator separates elements
        return getattr(s, "matrix", 0) and k.gap and k.text in ("+", "-") and not s.t[s.i + 1].gap
    def unary(s):
        k = s.peek()
        if k.kind == "op" and k.text in ("-", "+", "!", "√"):
            s.next()
            x = s.unary()
            return x if k.text == "+" else ("unary", k.text, x)
        return s.power()
    def power(s):
        x = s.postfix()
        k = s.peek()
        if k.kind == "op" and k.text in ("^", ".^"):
            s.next(); s.skip()
            return ("op", k.text, x, s.unary())
        # a literal coefficient
        t = s.t[s.i]
        if x[0] == "number" and not t.gap and (t.kind == "name" or t.kind == "op" and t.text == "("): return ("op", "*", x, s.power())
        return x
    def postfix(s):
        x = s.primary()
        while True:
            t = s.t[s.i]
            if t.kind == "op" and not t.gap and t.text == "(" and x[0] != "number":
                s.i += 1; args, kw = s.arguments(")"); x = ("call", x, args, kw, None)
                if s.at("do"): raise Unsupported("do block")
            elif t.kind == "op" and not t.gap and t.text == "[": s.i += 1; args, kw = s.arguments("]"); x = ("index", x, args)
            elif t.kind == "op" and not t.gap and t.text == "{": s.i += 1; args, kw = s.arguments("}"); x = ("curly", x, args)
            elif t.kind == "op" and t.text == "." and not t.gap:
                s.i += 1; u = s.t[s.i]
                if u.kind == "op" and u.text == "(": s.i += 1; args, kw = s.arguments(")"); x = ("dotcall", x, args)
                elif u.kind in ("name", "key"): s.i += 1; x = ("field", x, u.text)
                else: raise Unsupported(f"{u!r} after a dot")
            elif t.kind == "op" and t.text == "'" and not t.gap: raise Unsupported("adjoint")
            elif s.at("::") and not getattr(s, "notype", 0): s.next(); x = ("typed", x, s.postfix())
            elif s.at("...") : s.next(); x = ("splat", x)
            elif s.at("->"):
                s.next(); s.skip()
                items = x[1] if x[0] == "tuple" else [x]
                body = s.statement() if s.at("begin", "if", "let") else s.lambda_body()
                return ("function", None, [s.as_param(p) for p in items], None, body)
            else: return x
    def lambda_body(s): return s.expression()
    def arguments(s, close):
        saved = s.quiet()
        s.nest.append(True)
        args, kw, semi = [], [], False
        if close == "]": s.matrix = 0
        while not s.at(close):
            if s.accept(";"): semi = True; continue
            x = s.statement() if s.at("begin", "if", "function") else s.expression()
            if x[0] == "assign" and x[1][0] == "name": kw.append((x[1][1], x[2]))
            elif semi and x[0] == "name": kw.append((x[1], x))
            elif s.at("for"):
                s.next(); x = s.generator(x); args.append(x)
            else: args.append(x)
            if not s.accept(",") and not s.at(close, ";"): raise Unsupported(f"{s.peek()!r} among arguments")
        s.next(); s.nest.pop(); s.restore(saved)
        return args, kw
    def generator(s, x):
        s.stopin = getattr(s, "stopin", 0) + 1
        out = []
        while True:
            v = s.primary()
            if not (s.accept("=") or s.accept("in") or s.accept("∈")): raise Unsupported("generator")
            out.append((v, s.ternary()))
            if not s.accept(","): break
        s.stopin -= 1
        if s.at("if"): raise Unsupported("filtered generator")
        return ("generator", x, out)
    FLAGS = ("noranges", "stopin", "matrix", "stopcolon")
    def quiet(s):
        r = [getattr(s, f, 0) for f in s.FLAGS]
        for f in s.FLAGS: setattr(s, f, 0)
        return r
    def restore(s, r):
        for f, v in zip(s.FLAGS, r): setattr(s, f, v)
    def primary(s):
        k = s.next()
        if k.kind == "number":
            t = k.text.replace("_", "")
            return ("number", float(t) if any(c in t for c in ".eE") else int(t))
        if k.kind == "hex":
            n = len(k.text) - 2
            if n <= 2: return ("number", U8(int(k.text, 16)))
            return ("number", int(k.text, 16))
        if k.kind == "string": return ("string", k.text[3:-3] if k.text.startswith('"""') else k.text[1:-1])
        if k.kind == "name": return ("name", k.text)
        if k.kind == "key":
            if k.text in ("true", "false"): return ("number", k.text == "true")
            if k.text == "nothing": return ("nothing",)
            if k.text in ("begin", "if", "let", "function", "for", "while"):
                saved = s.quiet(); r = s.inside(False, getattr(s, "s_" + k.text)); s.restore(saved)
                return r
            if k.text == "end" and getattr(s, "inindex", 0): return ("name", "end")
            raise Unsupported(f"{k!r}")
        if k.text == ":":
            u = s.t[s.i]
            if u.kind in ("name", "key"): s.i += 1; return ("symbol", u.text)
            raise Unsupported("colon")
        if k.text == "(":
            saved = s.quiet()
            s.nest.append(True)
            items, comma = [], False
            while not s.at(")"):
                if s.at(";"): raise Unsupported("block in parentheses")
                x = s.expression()
                if s.at("for"): s.next(); x = s.generator(x)
                items.append(x)
                if s.accept(","): comma = True
                elif not s.at(")"): raise Unsupported(f"{s.peek()!r} in parentheses")
            s.next(); s.nest.pop(); s.restore(saved)
            if len(items) == 1 and not comma:
                return items[0] if items[0][0] not in ("typed",) else ("tuple1", items[0])[1]
            return ("tuple", items)
        if k.text == "[":
            saved = s.quiet()
            s.nest.append(True)
            items = []
            s.matrix = 1
            while not s.at("]"):
                if s.at(";"): raise Unsupported("matrix literal")
                x = s.expression()
                if s.at("for"): s.next(); s.matrix = 0; items = [("generator_array", s.generator(x))]; continue
                items.append(x)
                if not s.accept(",") and not s.at("]"): raise Unsupported("matrix literal")
            s.next(); s.nest.pop(); s.restore(saved)
            if items and items[0][0] == "generator_array": return ("collect", items[0][1])
            return ("array", items)
        raise Unsupported(f"{k!r}")

# ---------------------------------------------------------------- values
class U8(int):
    """UInt8"""
class Type:
    def __init__(s, name, test, convert=None): s.name, s.test, s.convert = name, test, convert
    def __repr__(s): return s.name
class Union(Type):
    def __init__(s, types): super().__init__("Union", lambda v: any(t.test(v) for t in types)); s.types = types
class Symbol(str): pass
class Module:
    def __init__(s, name, parent, file): s.name, s.parent, s.file, s.vars, s.unread = name, parent, file, {}, False
class External:
    """A package that is not here."""
    def __init__(s, name): s.name = name
class Later:
    def __init__(s, module, name): s.module, s.name = module, name
class Struct:
    def __init__(s, name, fields): s.name, s.fields, s.methods = name, fields, []
class Object:
    def __init__(s, type, values): s.type, s.values = type, values
class Function:
    def __init__(s, name): s.name, s.methods = name, []
class Method:
    def __init__(s, params, ret, body, scope, interp):
        s.params, s.ret, s.body, s.scope = params, ret, body, scope
        s.positional = [p for p in params if not p[3]]
        s.keywords = [p for p in params if p[3]]
        s.types = [None if p[1] is None else interp.eval(p[1], scope) for p in s.positional]
        s.rtype = None if ret is None else interp.eval(ret, scope)
    def fits(s, args):
        n = len(s.positional)
        if s.positional and s.positional[-1][4]: return len(args) >= n - 1
        if len(args) > n or any(p[2] is None for p in s.positional[len(args):]): return False
        return all(t is None or istype(v, t) for t, v in zip(s.types, args))
    def weight(s): return sum(0 if t is None or t.name == "Any" else 1 if isinstance(t, Union) else 2 for t in s.types)
class Return(Exception):
    def __init__(s, v): s.v = v
class Break(Exception): pass
class Continue(Exception): pass
class Scope:
    def __init__(s, parent, module): s.vars, s.parent, s.module, s.globals = {}, parent, module, set()
    def find(s, n):
        k = s
        while k is not None:
            if n in k.vars: return k
            k = k.parent

def isarray(v): return isinstance(v, np.ndarray)
def istype(v, t):
    if isinstance(t, Struct): return isinstance(v, Object) and v.type is t
    return t.test(v)
def isint(v): return isinstance(v, int) and not isinstance(v, (bool, U8))
def scalar(v):
    if isinstance(v, np.floating): return float(v)
    if isinstance(v, np.uint8): return U8(int(v))
    if isinstance(v, np.bool_): return bool(v)
    if isinstance(v, np.integer): return int(v)
    return v
def to_u8(v):
    if isinstance(v, U8): return v
    if isinstance(v, (int, float)) and v == int(v) and 0 <= v <= 255: return U8(int(v))
    raise JuliaError(f"InexactError: UInt8({v!r})")
def to_float(v):
    if isinstance(v, (int, float)): return float(v)
    raise JuliaError(f"MethodError: Cannot convert {type(v).__name__} to Float64")
def to_int(v):
    if isinstance(v, (int, float)) and v == int(v): return int(v)
    raise JuliaError(f"InexactError: Int64({v!r})")
def callable_value(v): return isinstance(v, (Function, Struct)) or callable(v)
def make_types():
    T = {}
    def t(name, test, convert=None): T[name] = Type(name, test, convert)
    t("Any", lambda v: True)
    t("Float64", lambda v: isinstance(v, float), to_float)
    for n in ("Int", "Int64"): t(n, isint, to_int)
    t("UInt8", lambda v: isinstance(v, U8), to_u8)
    t("UInt32", lambda v: isint(v) and v >= 0, to_int)
    t("UInt64", lambda v: isint(v) and v >= 0, to_int)
    t("Bool", lambda v: isinstance(v, bool))
    for n in ("Integer", "Signed", "Unsigned"): t(n, lambda v: isinstance(v, int))
    for n in ("Real", "Number"): t(n, lambda v: isinstance(v, (int, float)))
    t("AbstractFloat", lambda v: isinstance(v, float))
    for n in ("String", "AbstractString"): t(n, lambda v: isinstance(v, str))
    for n in ("Vector", "AbstractVector"): t(n, lambda v: isarray(v) and v.ndim == 1)
    for n in ("Matrix", "AbstractMatrix"): t(n, lambda v: isarray(v) and v.ndim == 2)
    for n in ("Array", "AbstractArray"): t(n, isarray)
    t("Function", lambda v: isinstance(v, Function) or callable(v))
    t("Nothing", lambda v: v is None)
    t("Tuple", lambda v: isinstance(v, tuple))
    t("Cdouble", lambda v: isinstance(v, float), to_float)
    t("Cuchar", lambda v: isinstance(v, U8), to_u8)
    return T
TYPES = make_types()
CTYPES = {"Float64": (ctypes.c_double, to_float), "Cdouble": (ctypes.c_double, to_float), "UInt8": (ctypes.c_uint8, to_u8), "Cuchar": (ctypes.c_uint8, to_u8)}

def arith(op, a, b):
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        if op == "/": return float(np.float64(a) / np.float64(b))
        u8 = isinstance(a, U8) and isinstance(b, U8)
        ints = isinstance(a, int) and isinstance(b, int)
        if op == "^":
            if ints:
                if b < 0: raise JuliaError("DomainError: integer to a negative power")
                r = int(a) ** int(b)
            else:
                a_ = float(a)
                if a_ < 0 and not (isinstance(b, int) or b == int(b)): raise JuliaError("DomainError: power of a negative number")
                return float(np.power(np.float64(a_), np.float64(b)))
        elif op == "+": r = (int(a) if ints else float(a)) + b
        elif op == "-": r = (int(a) if ints else float(a)) - b
        elif op == "*": r = (int(a) if ints else float(a)) * b
        elif op in ("%", "÷"):
            if b == 0 and ints: raise JuliaError("DivideError")
            r = math.fmod(a, b) if op == "%" else float(np.trunc(np.float64(a) / np.float64(b)))
            if ints: r = int(r)
        else: raise Unsupported(f"operator {op}")
        if isinstance(r, float): return r
        if u8 or (isinstance(a, U8) and op == "^"): return U8(r & 255)
        return (r + 2**63) % 2**64 - 2**63
    raise JuliaError(f"MethodError: no method {op} for {kind(a)} and {kind(b)}")
def kind(v): return f"array of shape {v.shape}" if isarray(v) else type(v).__name__
COMPARE = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "≤": lambda a, b: a <= b, "≥": lambda a, b: a >= b, "≠": lambda a, b: a != b}

def as_array(items):
    items = list(items)
    if not items: return np.zeros(0)
    if all(isinstance(x, U8) for x in items): return np.array([int(x) for x in items], dtype=np.uint8)
    if all(isinstance(x, bool) for x in items): return np.array(items, dtype=bool)
    if all(isinstance(x, int) and not isinstance(x, bool) for x in items): return np.array([int(x) for x in items], dtype=np.int64)
    if all(isinstance(x, (int, float)) for x in items): return np.array([float(x) for x in items])
    raise Unsupported("array of other things than numbers")

def broadcast(f, *args):
    """Julia aligns the leading dimensions."""
    args = [np.array([scalar(x) for x in a]) if isinstance(a, tuple) else a for a in args]
    arrays = [a for a in args if isarray(a)]
    if not arrays: return f(*args)
    nd = max(a.ndim for a in arrays)
    shape = [1] * nd
    for a in arrays:
        for d, n in enumerate(a.shape):
            if shape[d] == 1: shape[d] = n
            elif n not in (1, shape[d]): raise JuliaError("DimensionMismatch: arrays could not be broadcast to a common size")
    full = [np.broadcast_to(a.reshape(a.shape + (1,) * (nd - a.ndim)), shape) if isarray(a) else a for a in args]
    flat = [a.ravel(order="F") if isarray(a) else a for a in full]
    n = int(np.prod(shape))
    out = [f(*[scalar(a[i]) if isarray(a) else a for a in flat]) for i in range(n)]
    return as_array(out).reshape(shape, order="F")

def elements(v):
    if isarray(v): return [scalar(x) for x in v.ravel(order="F")]
    if isinstance(v, (tuple, list)): return list(v)
    if isinstance(v, (int, float)): return [v]
    raise Unsupported("iteration over " + kind(v))

def math1(f):
    def g(x):
        if isinstance(x, bool) or not isinstance(x, (int, float)): raise JuliaError(f"MethodError: {f.__name__} of {kind(x)}")
        return float(f(np.float64(x)))
    return g
def domain(f, ok):
    g = math1(f)
    def h(x):
        if isinstance(x, (int, float)) and not ok(x): raise JuliaError(f"DomainError: {f.__name__} of {x!r}")
        return g(x)
    return h

class Interpreter:
    def __init__(s, library):
        s.lib = ctypes.CDLL(library)
        s.symbols = {}
        s.calls = 0
        s.unread = []
        s.own = set()          # names the sources give to parameters
        s.base = dict(TYPES)
        B = s.base
        for n in "sin cos tan sinh cosh tanh exp expm1 cbrt exp2".split(): B[n] = math1(getattr(np, n))
        for n, f in (("asinh", np.arcsinh), ("atan", np.arctan), ("acos", np.arccos), ("asin", np.arcsin), ("acosh", np.arccosh), ("atanh", np.arctanh)): B[n] = math1(f)
        B["sqrt"] = domain(np.sqrt, lambda x: not x < 0); B["log"] = domain(np.log, lambda x: not x < 0); B["log1p"] = domain(np.log1p, lambda x: not x < -1); B["log10"] = domain(np.log10, lambda x: not x < 0); B["log2"] = domain(np.log2, lambda x: not x < 0)
        B["coth"] = math1(lambda x: 1 / np.tanh(x))
        B["abs"] = lambda x: U8(x) if isinstance(x, U8) else abs(x)
        B["min"] = lambda *a: min(a); B["max"] = lambda *a: max(a)
        B["floor"] = math1(np.floor); B["ceil"] = math1(np.ceil); B["round"] = math1(np.round)
        B["pi"] = B["π"] = math.pi; B["Inf"] = math.inf; B["NaN"] = math.nan
        B["isnan"] = lambda x: x != x; B["isinf"] = lambda x: isinstance(x, float) and math.isinf(x); B["isfinite"] = lambda x: math.isfinite(x)
        B["zero"] = lambda x: type(x)(0); B["one"] = lambda x: type(x)(1)
        B["float"] = lambda x: x.astype(float) if isarray(x) else to_float(x)
        B["broadcast"] = lambda f, *a: broadcast(lambda *x: s.call(f, list(x)), *a)
        def map_(f, *a):
            if len(a) == 1 and isarray(a[0]): return broadcast(lambda x: s.call(f, [x]), a[0])
            if all(isinstance(x, (int, float)) for x in a): return s.call(f, list(a))
            if all(isarray(x) for x in a) and len({x.shape for x in a}) == 1: return broadcast(lambda *x: s.call(f, list(x)), *a)
            # a number is a collection of one; collections of different lengths end with the shortest
            if all(isinstance(x, (int, float)) or isarray(x) and x.ndim == 1 for x in a) or all(isinstance(x, (int, float)) or isarray(x) and x.size for x in a) and any(not isarray(x) for x in a):
                return as_array([s.call(f, list(x)) for x in zip(*[elements(x) for x in a])])
            raise Unsupported("map")
        B["map"] = map_
        def total(*a):
            items = elements(a[0]) if len(a) == 1 else [s.call(a[0], [x]) for x in elements(a[1])]
            r = 0.0 if any(isinstance(x, float) for x in items) or not items else 0
            return math.fsum(items) if isinstance(r, float) else sum(int(x) for x in items)
        B["sum"] = total
        def prod(a):
            r = 1.0
            for x in elements(a): r = arith("*", r, x)
            return r
        B["prod"] = prod
        B["maximum"] = lambda a: max(elements(a)); B["minimum"] = lambda a: min(elements(a))
        B["collect"] = lambda a: a if isarray(a) else as_array(elements(a))
        def range_(start, stop=None, length=None, step=None):
            if stop is None or (length is None and step is None): raise Unsupported("range")
            if length is not None: r = np.linspace(float(start), float(stop), int(length)); return r
            n = int(math.floor((stop - start) / step * (1 + 1e-14))) + 1
            return as_array([arith("+", start, arith("*", i, step)) for i in range(max(n, 0))])
        B["range"] = range_
        B["length"] = lambda a: int(a.size) if isarray(a) else len(a) if isinstance(a, (tuple, str)) else 1
        B["size"] = lambda a, d=None: tuple(a.shape) if d is None else (a.shape[d - 1] if d <= a.ndim else 1)
        B["ndims"] = lambda a: a.ndim if isarray(a) else 0
        def filled(v):
            def f(*d):
                if d and isinstance(d[0], Type): raise Unsupported("typed array")
                return np.full(d[0] if isinstance(d[0], tuple) else d, v)
            return f
        B["zeros"] = filled(0.0); B["ones"] = filled(1.0)
        B["fill"] = lambda v, *d: np.full(d, int(v) if isinstance(v, U8) else v, dtype=np.uint8 if isinstance(v, U8) else None)
        B["vec"] = lambda a: a.ravel(order="F"); B["reshape"] = lambda a, *d: a.reshape(d[0] if isinstance(d[0], tuple) else d, order="F")
        B["string"] = lambda *a: "".join(map(str, a))
        B["dirname"] = lambda p: os.path.dirname(p); B["joinpath"] = lambda *p: os.path.join(*p); B["abspath"] = lambda p: os.path.abspath(p)
        B["typeof"] = s.typeof
        B["isa"] = lambda v, t: istype(v, t)
        def convert(t, v):
            if isarray(v) or t.convert is None: raise Unsupported("convert")
            return t.convert(v)
        B["convert"] = convert
        B["identity"] = lambda x: x
        def error(*a): raise JuliaError("ErrorException: " + "".join(map(str, a)))
        B["error"] = error
        B["println"] = lambda *a: None
        for o in "+-*/^": B["(%s)" % o] = None
        B["Polymers_jll"] = None; del B["Polymers_jll"]
    def typeof(s, v):
        for n in ("UInt8", "Float64", "Int64", "Bool", "Vector", "Matrix", "Array", "String"):
            if TYPES[n].test(v): return TYPES[n]
        if isinstance(v, Object): return v.type
        raise Unsupported("typeof")
    # modules
    def load(s, file, module):
        try: source = open(file, encoding="utf-8").read()
        except OSError: raise JuliaError(f"SystemError: opening file {file}: No such file or directory")
        try: tree = Parser(source).program()
        except Unsupported as e: s.unread.append(f"{file}: {e}"); module.unread = True; return
        old = module.file; module.file = file
        scope = Scope(None, module)
        for x in tree: s.top(x, module)
        module.file = old
    def top(s, x, module):
        if x[0] == "module":
            m = Module(x[1], module, module.file)
            m.vars[x[1]] = m
            module.vars[x[1]] = m
            for y in x[2]: s.top(y, m)
            return
        if x[0] == "call" and x[1] == ("name", "include"):
            path = s.eval(x[2][0], Scope(None, module))
            s.load(os.path.join(os.path.dirname(module.file), path), module)
            return
        try: s.eval(x, Scope(None, module))
        except Unsupported as e: s.unread.append(f"{module.name}: {e}"); module.unread = True
    def run(s, file):
        main = Module("Main", None, file)
        s.load(file, main)
        return main
    def imports(s, x, module):
        for dots, names in x[1]:
            if dots == 0:
                v = main = None
                r = module
                if names[0] == "Polymers_jll":
                    v = Module("Polymers_jll", None, ""); v.vars["libpolymers"] = v.vars["libpolymers_path"] = Symbol("libpolymers")
                else: v = External(names[0])
                module.vars.setdefault(names[0], v)
                if x[2] is not None:
                    for n in x[2]: module.vars.setdefault(n, External(names[0] + "." + n) if isinstance(v, External) else v.vars.get(n))
                continue
            at = module
            for _ in range(dots - 1):
                at = at.parent
                if at is None or at.name == "Main" and at.parent is None and False: raise JuliaError(f"UndefVarError: {'.' * dots}{names[0]} goes above the package")
            if at.name == "Main": raise JuliaError(f"UndefVarError: {'.' * dots}{'.'.join(names)} not defined")
            for n in names:
                if n not in at.vars and at.unread: raise Unsupported(n)
                if n not in at.vars: raise JuliaError(f"UndefVarError: {n} not defined in {at.name}")
                at = at.vars[n]
            if x[2] is None: module.vars[names[-1]] = at
            else:
                if not isinstance(at, Module): raise JuliaError(f"{names[-1]} is not a module")
                for n in x[2]:
                    # importing a name that is not there yet is a warning; using it before it is there an error
                    module.vars[n] = at.vars[n] if n in at.vars else Later(at, n)
    # evaluation
    def lookup(s, n, scope):
        k = scope.find(n)
        if k is not None: return k.vars[n]
        m = scope.module
        if n in m.vars:
            v = m.vars[n]
            if isinstance(v, Later):
                if v.name not in v.module.vars and v.module.unread: raise Unsupported(v.name)
                if v.name not in v.module.vars: raise JuliaError(f"UndefVarError: {v.name} not defined in {v.module.name}")
                v = v.module.vars[v.name]
            return v
        if n in s.base: return s.base[n]
        if n == "@__FILE__": return os.path.abspath(m.file)
        if n == "@__DIR__": return os.path.dirname(os.path.abspath(m.file))
        if n in ("Base", "Main", "Core", "ccall"): raise Unsupported(n)
        if n in KNOWN or m.unread: raise Unsupported(n)
        if any(isinstance(v, External) for k, v in m.vars.items() if k != "DocStringExtensions"): raise Unsupported(n)
        # Base has more names than this interpreter, but hardly any with an underscore
        if "_" not in n.strip("_") and n not in s.own or n.startswith("unsafe_"): raise Unsupported(n)
        raise JuliaError(f"UndefVarError: {n} not defined")
    def assign(s, target, v, scope):
        if target[0] == "name":
            n = target[1]
            k = scope.find(n)
            if k is not None: k.vars[n] = v
            elif getattr(scope, "local", False) and n not in scope.globals: scope.vars[n] = v
            else: scope.module.vars[n] = v
        elif target[0] == "typed": s.assign(target[1], s.convert_to(v, s.eval(target[2], scope)), scope)
        elif target[0] == "tuple":
            items = elements(v)
            if len(items) < len(target[1]): raise JuliaError("BoundsError: destructuring")
            for t, w in zip(target[1], items): s.assign(t, w, scope)
        else: raise Unsupported("assignment to " + target[0])
    def convert_to(s, v, t):
        if istype(v, t): return v
        if isinstance(t, Union) or isinstance(t, Struct) or t.convert is None: raise JuliaError(f"MethodError: Cannot convert {kind(v)} to {t!r}")
        return t.convert(v)
    def child(s, scope): c = Scope(scope, scope.module); c.local = True; return c
    def method(s, x, scope): s.own.update(p[0] for p in x[2] if len(p[0]) > 3); return Method(x[2], x[3], x[4], scope, s)
    def call(s, f, args, kw=()):
        if isinstance(f, Type):
            if f.convert and len(args) == 1:
                if isarray(args[0]): raise JuliaError("MethodError: conversion of an array")
                return f.convert(args[0])
            raise Unsupported("constructor of " + f.name)
        if isinstance(f, External): raise Unsupported(f.name)
        if isinstance(f, Struct):
            fit = [m for m in f.methods if m.fits(args)]
            if fit: return s.invoke(max(fit, key=Method.weight), args, kw)
            if len(args) != len(f.fields): raise JuliaError(f"MethodError: no method matching {f.name} with {len(args)} arguments ({', '.join(kind(a) for a in args)})")
            return Object(f, {n: (v if t is None else s.convert_to(v, t)) for (n, t), v in zip(f.fields, args)})
        if isinstance(f, Function):
            fit = [m for m in f.methods if m.fits(args)]
            if not fit: raise JuliaError(f"MethodError: no method matching {f.name}({', '.join(kind(a) for a in args)})")
            return s.invoke(max(fit, key=Method.weight), args, kw)
        if callable(f):
            try: return f(*args, **dict(kw))
            except TypeError as e: raise Unsupported(f"builtin: {e}")
        raise JuliaError(f"MethodError: {kind(f)} is not callable")
    def invoke(s, m, args, kw):
        sc = s.child(m.scope)
        for i, p in enumerate(m.positional):
            if p[4]: sc.vars[p[0]] = tuple(args[i:])
            elif i < len(args): sc.vars[p[0]] = args[i]
            else: sc.vars[p[0]] = s.eval(p[2], sc)
        given = dict(kw)
        for p in m.keywords:
            if p[0] in given: sc.vars[p[0]] = given.pop(p[0])
            elif p[2] is not None: sc.vars[p[0]] = s.eval(p[2], sc)
            else: raise JuliaError(f"UndefKeywordError: {p[0]}")
        if given: raise JuliaError(f"MethodError: unsupported keyword {list(given)}")
        try: r = s.eval(m.body, sc)
        except Return as e: r = e.v
        if m.rtype is not None: r = s.convert_to(r, m.rtype)
        return r
    def ccall(s, x, scope):
        args = x[2]
        target = args[0]
        name = target[1][0] if target[0] == "tuple" else target
        if target[0] == "tuple" and len(target[1]) == 2: s.eval(target[1][1], scope)
        name = s.eval(name, scope)
        if args[2][0] != "tuple":
            raise JuliaError("ccall: the argument types are not a tuple")
        ret = s.eval(args[1], scope); types = [s.eval(t, scope) for t in args[2][1]]
        given = [s.eval(a, scope) for a in args[3:]]
        if len(given) != len(types): raise JuliaError(f"ccall: {len(given)} arguments, {len(types)} types, for {name}")
        if ret.name not in CTYPES or any(t.name not in CTYPES for t in types): raise Unsupported("ccall with other types")
        key = (str(name), ret.name, tuple(t.name for t in types))
        f = s.symbols.get(key)
        if f is None:
            try: g = s.lib[str(name)]
            except AttributeError: raise JuliaError(f"could not load symbol {name}")
            proto = ctypes.CFUNCTYPE(CTYPES[ret.name][0], *[CTYPES[t.name][0] for t in types])
            f = s.symbols[key] = proto((str(name), s.lib))
        s.calls += 1
        r = f(*[CTYPES[t.name][1](v) for t, v in zip(types, given)])
        return U8(r) if ret.name in ("UInt8", "Cuchar") else r
    def eval(s, x, scope):
        return getattr(s, "e_" + x[0])(x, scope)
    def e_number(s, x, scope): return x[1]
    def e_string(s, x, scope): return x[1]
    def e_nothing(s, x, scope): return None
    def e_symbol(s, x, scope): return Symbol(x[1])
    def e_name(s, x, scope): return s.lookup(x[1], scope)
    def e_module(s, x, scope): raise Unsupported("module inside a function")
    def e_import(s, x, scope): s.imports(x, scope.module)
    def e_block(s, x, scope):
        r = None
        for y in x[1]: r = s.eval(y, scope)
        return r
    def e_let(s, x, scope):
        sc = s.child(scope)
        for h in x[1]:
            if h[0] == "assign" and h[1][0] == "name": sc.vars[h[1][1]] = s.eval(h[2], sc)
            else: raise Unsupported("let")
        return s.eval(x[2], sc)
    def e_global(s, x, scope):
        y = x[1]
        n = y[1] if y[0] == "name" else y[1][1] if y[0] == "assign" and y[1][0] == "name" else None
        if n is None: raise Unsupported("global")
        scope.globals.add(n)
        if y[0] == "assign": scope.module.vars[n] = s.eval(y[2], scope)
    def e_local(s, x, scope):
        y = x[1]
        if y[0] == "assign" and y[1][0] == "name": v = scope.vars[y[1][1]] = s.eval(y[2], scope); return v
        if y[0] == "assign" and y[1][0] == "typed": v = scope.vars[y[1][1][1]] = s.convert_to(s.eval(y[2], scope), s.eval(y[1][2], scope)); return v
        if y[0] == "name": return None
        raise Unsupported("local")
    def e_assign(s, x, scope): v = s.eval(x[2], scope); s.assign(x[1], v, scope); return v
    def e_typed(s, x, scope):
        v, t = s.eval(x[1], scope), s.eval(x[2], scope)
        if not istype(v, t): raise JuliaError(f"TypeError: in typeassert, expected {t!r}, got {kind(v)}")
        return v
    def e_return(s, x, scope): raise Return(s.eval(x[1], scope))
    def e_break(s, x, scope): raise Break()
    def e_continue(s, x, scope): raise Continue()
    def e_struct(s, x, scope):
        if len({n for n, t in x[2]}) < len(x[2]): raise JuliaError(f"syntax: duplicate field name in {x[1]}")
        scope.module.vars[x[1]] = Struct(x[1], [(n, None if t is None else s.eval(t, scope)) for n, t in x[2]])
    def e_function(s, x, scope):
        m = s.method(x, scope)
        if x[1] is None: f = Function("an anonymous function"); f.methods = [m]; return f
        k = scope.find(x[1])
        where = k.vars if k is not None else scope.vars if getattr(scope, "local", False) else scope.module.vars
        f = where.get(x[1])
        if not isinstance(f, (Function, Struct)): f = where[x[1]] = Function(x[1])
        same = [i for i, o in enumerate(f.methods) if len(o.positional) == len(m.positional) and [repr(t) for t in o.types] == [repr(t) for t in m.types]]
        if same: f.methods[same[0]] = m
        else: f.methods.append(m)
        return f
    def truth(s, v):
        if not isinstance(v, bool): raise JuliaError(f"TypeError: non-boolean ({kind(v)}) used in boolean context")
        return v
    def e_if(s, x, scope): return s.eval(x[2] if s.truth(s.eval(x[1], scope)) else x[3], scope)
    def e_andor(s, x, scope):
        a = s.truth(s.eval(x[2], scope))
        if x[1] == "&&": return s.eval(x[3], scope) if a else False
        return True if a else s.eval(x[3], scope)
    def e_for(s, x, scope):
        for v in elements(s.eval(x[2], scope)):
            sc = s.child(scope)
            s.bind(x[1], v, sc)
            try: s.eval(x[3], sc)
            except Break: break
            except Continue: continue
    def bind(s, target, v, sc):
        if target[0] == "name": sc.vars[target[1]] = v
        elif target[0] == "tuple":
            for t, w in zip(target[1], elements(v)): s.bind(t, w, sc)
        else: raise Unsupported("loop variable")
    def e_while(s, x, scope):
        n = 0
        while s.truth(s.eval(x[1], scope)):
            n += 1
            if n > 10**6: raise Unsupported("long loop")
            try: s.eval(x[2], s.child(scope))
            except Break: break
            except Continue: continue
    def e_tuple(s, x, scope): return tuple(s.spread(x[1], scope))
    def e_array(s, x, scope): return as_array(s.spread(x[1], scope))
    def items(s, x, scope):
        def go(loops, sc):
            if not loops: yield s.eval(x[1], sc); return
            for v in elements(s.eval(loops[0][1], sc)):
                c = s.child(sc); s.bind(loops[0][0], v, c)
                yield from go(loops[1:], c)
        return list(go(x[2], scope))
    def e_generator(s, x, scope): return tuple(s.items(x, scope))
    def e_collect(s, x, scope):
        if len(x[1][2]) > 1: raise Unsupported("comprehension over several variables")
        return as_array(s.items(x[1], scope))
    def e_splat(s, x, scope): raise Unsupported("splat")
    def spread(s, items, scope):
        out = []
        for a in items:
            if a[0] == "splat": out.extend(elements(s.eval(a[1], scope)))
            else: out.append(s.eval(a, scope))
        return out
    def e_range(s, x, scope):
        a, b = s.eval(x[1], scope), s.eval(x[2], scope)
        step = 1 if x[3] is None else s.eval(x[3], scope)
        return s.base["range"](a, stop=b, step=step)
    def e_unary(s, x, scope):
        v = s.eval(x[2], scope)
        if x[1] == "!": return not s.truth(v)
        if x[1] == "√": return s.base["sqrt"](v)
        if isarray(v): return -v
        if isinstance(v, U8): return U8(-int(v) & 255)
        if isinstance(v, (int, float)): return -v
        raise JuliaError("MethodError: minus " + kind(v))
    def operate(s, op, a, b):
        if op.startswith("."): return broadcast(lambda p, q: s.operate(op[1:], p, q), a, b)
        if op in ("===", "!=="): return (type(a) is type(b) and a is b or a == b) == (op == "===")
        if op in COMPARE:
            if isarray(a) or isarray(b): raise Unsupported("comparison of arrays")
            return bool(COMPARE[op](a, b))
        if op in ("in", "∈"): return any(a == e for e in elements(b))
        if op == "isa": return istype(a, b)
        if isarray(a) or isarray(b):
            if op in "+-" and isarray(a) and isarray(b):
                if a.shape != b.shape: raise JuliaError("DimensionMismatch")
                return broadcast(lambda p, q: arith(op, p, q), a, b)
            if op == "*" and isarray(a) != isarray(b) or op == "/" and not isarray(b): return broadcast(lambda p, q: arith(op, p, q), a, b)
            if op in "+-" or op == "^": raise JuliaError(f"MethodError: no method {op} for {kind(a)} and {kind(b)}")
            raise Unsupported("matrix algebra")
        if op == "*" and isinstance(a, str): return a + b
        return arith(op, a, b)
    def e_op(s, x, scope): return s.operate(x[1], s.eval(x[2], scope), s.eval(x[3], scope))
    def e_chain(s, x, scope):
        a = s.eval(x[1], scope)
        for op, y in x[2]:
            b = s.eval(y, scope)
            if not s.operate(op, a, b): return False
            a = b
        return True
    def e_call(s, x, scope):
        if x[1] == ("name", "ccall"): return s.ccall(x, scope)
        if x[1] == ("name", "include"): raise Unsupported("include inside an expression")
        f = s.eval(x[1], scope)
        return s.call(f, s.spread(x[2], scope), [(n, s.eval(v, scope)) for n, v in x[3]])
    def e_dotcall(s, x, scope):
        f = s.eval(x[1], scope)
        return broadcast(lambda *a: s.call(f, list(a)), *s.spread(x[2], scope))
    def e_curly(s, x, scope):
        t = s.eval(x[1], scope) if x[1] != ("name", "Union") else None
        if t is None: return Union([s.eval(a, scope) for a in x[2]])
        if isinstance(t, Type) and t.name in ("Vector", "Matrix", "Array", "AbstractArray", "AbstractVector", "AbstractMatrix"):
            inner = x[2][0]
            if inner[0] == "name" and inner[1] in ("Float64", "UInt8", "Int64", "Int"):
                d = {"Float64": np.float64, "UInt8": np.uint8}.get(inner[1], np.int64)
                return Type(t.name, lambda v: t.test(v) and v.dtype == d)
        raise Unsupported("parametric type")
    def e_field(s, x, scope):
        if x[1][0] == "name" and x[1][1] == "Base" and x[2] in s.base: return s.base[x[2]]
        return s.field(s.eval(x[1], scope), x[2])
    def field(s, v, n):
        if isinstance(v, Module):
            if n in v.vars: return v.vars[n]
            if v.unread: raise Unsupported(f"{n} in {v.name}, which was not read fully")
            raise JuliaError(f"UndefVarError: {n} not defined in {v.name}")
        if isinstance(v, External): raise Unsupported(f"{v.name}.{n}")
        if isinstance(v, Object):
            if n in v.values: return v.values[n]
            raise JuliaError(f"type {v.type.name} has no field {n}")
        raise Unsupported("field of " + kind(v))
    def e_index(s, x, scope):
        v = s.eval(x[1], scope)
        i = [s.eval(a, scope) for a in x[2]]
        if not all(isinstance(k, int) for k in i): raise Unsupported("index")
        if isinstance(v, tuple) and len(i) == 1: seq = v
        elif isarray(v) and len(i) == 1: seq = v.ravel(order="F")
        elif isarray(v) and len(i) == v.ndim:
            if any(not 1 <= k <= n for k, n in zip(i, v.shape)): raise JuliaError("BoundsError")
            return scalar(v[tuple(k - 1 for k in i)])
        else: raise Unsupported("index")
        if not 1 <= i[0] <= len(seq): raise JuliaError("BoundsError")
        return scalar(seq[i[0] - 1])
# functions Julia has and this interpreter does not
KNOWN = set("""foldl foldr reduce mapreduce accumulate cumsum filter any all findfirst findall sort sort! push! append! enumerate zip eachindex similar copy deepcopy Ref Ptr pointer unsafe_load
 getfield setfield! hasfield fieldnames isdefined throw ArgumentError DomainError BoundsError show print printf sprint parse tryparse rand randn sign clamp muladd fma hypot atand sec csc cot sech csch eps floatmax floatmin
 nextfloat prevfloat trunc rem mod div divrem gcd lcm factorial binomial isempty first last keys values Dict Set Pair Tuple NamedTuple promote promote_type eltype axes permutedims transpose adjoint hcat vcat cat repeat
 invoke invokelatest nothing missing ntuple only dropdims broadcast! map! foreach Int32 Int16 Int8 UInt16 Float32 Cvoid Cint Csize_t Cstring UInt Vararg Iterators Threads Base Core Symbol Expr Meta eval esc
 inv isone iszero isinteger isreal iseven isodd sincos sinpi cospi exp10 log1mexp logaddexp ≈ isapprox isequal issubset inf real imag conj angle @assert""".split())
