"""C++ front end: the clang AST of a translation unit, as Python text for the same engine (see loops.py, seq.py).

The translation keeps the statements and expressions of every function of namespace sumo; library types and functions become names
supplied by cppmodel (contracts of std::vector, Eigen vectors, cv::Mat, ...).  Dropped: const, noexcept, destructors, reserve, assert
(compiled out), move/copy elision (values are copied where the source copies or moves them), alignment macros.  Anything else that is not
understood is Unsupported, so that nothing is proved about it."""
import json
import keyword
import os
import re
import subprocess

from pyvc import Unsupported

CLANG = "clang++"
FLAGS = ["-std=c++14", "-DNDEBUG", "-fsyntax-only", "-w", "-I/usr/include/eigen3", "-I/usr/include/opencv4"]


def ast_of(api, path, extra=()):
    cmd = [CLANG] + FLAGS + list(extra) + ["-I.", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=sumo", path]
    p = subprocess.run(cmd, cwd=api, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode:
        raise Unsupported("clang does not accept %s: %s" % (path, p.stderr.decode()[:300]))
    s = p.stdout.decode()
    dec, i, docs = json.JSONDecoder(), 0, []
    while i < len(s):
        if s[i] != "{":
            j = s.find("\n", i)
            if j < 0:
                break
            i = j + 1
            continue
        o, i = dec.raw_decode(s, i)
        docs.append(o)
    return docs


PASS = {"MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXRewrittenBinaryOperator"}
OPS = {"operator|": "or", "operator+": "add", "operator-": "sub", "operator*": "mul", "operator/": "div", "operator==": "eq", "operator!=": "ne", "operator<": "lt", "operator<=": "le",
       "operator>": "gt", "operator>=": "ge"}
BIN = {"+", "-", "*", "<", "<=", ">", ">=", "==", "!="}
INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char", "signed char", "bool", "long long", "unsigned long long"}
FLOATS = {"float", "double", "long double"}


def tname(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


def bare(t):
    t = re.sub(r"\b(const|volatile|class|struct)\b", "", t).replace("&&", "").replace("&", "").strip()
    return re.sub(r"\s+", " ", t)


def is_ref(n):
    return n.get("type", {}).get("qualType", "").rstrip().endswith("&")


def is_const_ref(n):
    q = n.get("type", {}).get("qualType", "")
    return q.rstrip().endswith("&") and ("const" in q)


class Fn:
    """translation of one function body"""

    def __init__(self, T):
        self.T, self.names, self.used, self.lines, self.tmp = T, {}, {}, [], 0
        self.induct = {}

    # names
    def name(self, decl):
        i = decl["id"]
        if i not in self.names:
            n = decl.get("name") or "_anon"
            if keyword.iskeyword(n) or n in ("np", "self", "range", "len", "copy_"):
                n += "_"
            k = self.used.get(n, 0)
            self.used[n] = k + 1
            self.names[i] = n if k == 0 else "%s__%d" % (n, k)
        return self.names[i]

    def fresh(self, p="_t"):
        self.tmp += 1
        return "%s%d" % (p, self.tmp)

    # expressions
    def kids(self, n):
        return [c for c in n.get("inner", []) if c.get("kind") and not c["kind"].endswith(("Comment", "Attr"))]

    def ex(self, n):
        k = n["kind"]
        f = getattr(self, "x_" + k, None)
        if k in PASS:
            return self.ex(self.kids(n)[0])
        if f is None:
            raise Unsupported("C++ expression %s" % k)
        return f(n)

    def x_IntegerLiteral(self, n): return str(int(n["value"]))
    def x_CharacterLiteral(self, n): return str(int(n["value"]))
    def x_FloatingLiteral(self, n): return "flit_(%r)" % n["value"]
    def x_CXXBoolLiteralExpr(self, n): return "True" if n["value"] in (True, "true") else "False"
    def x_StringLiteral(self, n): return repr(json.loads(n["value"])) if n["value"].startswith('"') else repr(n["value"])
    def x_CXXThisExpr(self, n): return "self"
    def x_CXXNullPtrLiteralExpr(self, n): return "None"
    def x_CXXDefaultArgExpr(self, n): return None
    def x_CXXScalarValueInitExpr(self, n): return "0"
    def x_ImplicitValueInitExpr(self, n): return "ctor_(%r, [])" % bare(tname(n))

    def cast(self, n):
        c = n.get("castKind")
        e = self.kids(n)[0]
        x = self.ex(e)
        t = bare(tname(n))
        if c == "FloatingToIntegral":
            return "trunc_(%s, %r)" % (x, t)
        if c == "IntegralCast":
            if e["kind"] == "IntegerLiteral" or t in ("unsigned long", "long", "int") and bare(tname(e)) in ("unsigned char", "unsigned short", "unsigned int", "bool", "unsigned long"):
                return x
            return "icast_(%s, %r)" % (x, t)
        if c == "IntegralToFloating":
            return "tofloat_(%s)" % x
        if c == "FloatingCast":
            return "fcast_(%s, %r)" % (x, t)
        if c in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return "(%s != 0)" % x
        if c == "ToVoid":
            return "None"
        return x
    x_ImplicitCastExpr = x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXConstCastExpr = x_CXXReinterpretCastExpr = cast

    def x_CXXFunctionalCastExpr(self, n):
        return self.cast(n)

    def x_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            if d["id"] in self.names:
                return self.induct.get(d["id"], self.names[d["id"]])
            g = self.T.globals.get(d["id"])
            if g:
                return g
            return "ext_(%r)" % d.get("name")
        if d["kind"] == "EnumConstantDecl":
            v = self.T.enums.get(d["id"])
            if v is None:
                return "ext_(%r)" % d.get("name")
            return str(v)
        q = self.T.decls.get(d["id"])
        if q:
            return q.qual()
        return "ext_(%r)" % d.get("name")

    def x_MemberExpr(self, n):
        kids = self.kids(n)
        b = self.ex(kids[0]) if kids else "self"
        d = self.T.decls.get(n.get("referencedMemberDecl"))
        if d is not None and not d.virtual:
            return "bind_(%s, %s)" % (d.qual(), b)
        nm = n["name"]
        return "%s.%s" % (b, nm + "_" if keyword.iskeyword(nm) else nm)

    def x_CXXDependentScopeMemberExpr(self, n):
        kids = self.kids(n)
        return "%s.%s" % (self.ex(kids[0]) if kids else "self", n["member"])

    def args(self, xs):
        out = []
        for a in xs:
            if a["kind"] == "CXXDefaultArgExpr":
                continue
            out.append(self.ex(a))
        return ", ".join(out)

    def x_CXXMemberCallExpr(self, n):
        kids = self.kids(n)
        m = kids[0]
        while m["kind"] in PASS or m["kind"] == "ImplicitCastExpr":
            m = self.kids(m)[0]
        if m["kind"] != "MemberExpr":
            return "%s(%s)" % (self.ex(kids[0]), self.args(kids[1:]))
        d = self.T.decls.get(m.get("referencedMemberDecl"))
        base = self.kids(m)
        a = self.args(kids[1:])
        if d is not None and not d.virtual:
            b = self.ex(base[0]) if base else "self"
            return "%s(%s%s)" % (d.qual(), b, ", " + a if a else "")
        # a library method: mutating ones need the place, not the value
        b = self.lv(base[0]) if base else "self"
        return "%s.%s(%s)" % (b, m["name"], a)

    def x_CallExpr(self, n):
        kids = self.kids(n)
        return "%s(%s)" % (self.ex(kids[0]), self.args(kids[1:]))

    def callee(self, n):
        c = n
        while c["kind"] in PASS or c["kind"] == "ImplicitCastExpr":
            c = self.kids(c)[0]
        if c["kind"] == "DeclRefExpr":
            d = c["referencedDecl"]
            return d.get("name"), self.T.decls.get(d["id"]), d
        return c.get("name"), None, None

    def x_CXXOperatorCallExpr(self, n):
        kids = self.kids(n)
        nm, d, ref = self.callee(kids[0])
        a = kids[1:]
        if d is not None:
            return "%s(%s)" % (d.qual(), ", ".join(self.ex(x) for x in a))
        if nm == "operator[]":
            return "%s.get_(%s)" % (self.ex(a[0]), self.ex(a[1]))
        if nm == "operator()":
            return "%s(%s)" % (self.ex(a[0]), self.args(a[1:]))
        if nm in OPS and len(a) == 2:
            return "op_(%r, %s, %s)" % (OPS[nm], self.ex(a[0]), self.ex(a[1]))
        if nm == "operator-" and len(a) == 1:
            return "neg_(%s)" % self.ex(a[0])
        if nm in ("operator*", "operator->") and len(a) == 1:
            return "deref_(%s)" % self.ex(a[0])
        if nm == "operator=":
            return "assign_(%s, %s)" % (self.lv(a[0]), self.ex(a[1]))
        if nm in ("operator+=", "operator-=", "operator*=", "operator/="):
            return "aug_(%r, %s, %s)" % (nm[8], self.lv(a[0]), self.ex(a[1]))
        if nm in ("operator++", "operator--"):
            return "inc_(%s, %r)" % (self.lv(a[0]), nm[8:])
        if nm == "operator<<":
            return "stream_(%s, %s)" % (self.ex(a[0]), self.ex(a[1]))
        raise Unsupported("C++ operator %s" % nm)

    def lv(self, n):
        """the place denoted by an lvalue of class or element type"""
        k = n["kind"]
        if k in PASS or k == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase"):
            return self.lv(self.kids(n)[0])
        if k == "CXXOperatorCallExpr":
            kids = self.kids(n)
            nm, d, _ = self.callee(kids[0])
            if d is None and nm == "operator[]":
                return "%s.ref_(%s)" % (self.lv(kids[1]), self.ex(kids[2]))
            if d is None and nm == "operator()":
                return "%s.ref_(%s)" % (self.lv(kids[1]), self.args(kids[2:]))
        if k == "ArraySubscriptExpr":
            a = self.kids(n)
            return "%s.ref_(%s)" % (self.lv(a[0]), self.ex(a[1]))
        return self.ex(n)

    def x_ArraySubscriptExpr(self, n):
        a = self.kids(n)
        return "%s.get_(%s)" % (self.ex(a[0]), self.ex(a[1]))

    def x_UnaryOperator(self, n):
        o, e = n["opcode"], self.kids(n)[0]
        if o == "-":
            return "neg_(%s)" % self.ex(e)
        if o == "+":
            return self.ex(e)
        if o == "!":
            return "(not %s)" % self.ex(e)
        if o == "*":
            # a builtin dereference: pointers to objects are the objects
            return self.ex(e)
        if o == "&":
            return "addr_(%s)" % self.lv(e)
        raise Unsupported("C++ unary %s inside an expression" % o)

    def x_BinaryOperator(self, n):
        o, (a, b) = n["opcode"], self.kids(n)
        if o == "&&":
            return "(%s and %s)" % (self.ex(a), self.ex(b))
        if o == "||":
            return "(%s or %s)" % (self.ex(a), self.ex(b))
        if o in BIN:
            x, y = self.ex(a), self.ex(b)
            if o == "-" and bare(tname(n)).startswith("unsigned"):
                return "usub_(%s, %s)" % (x, y)
            if o in "+-*" or "dependent" in tname(n):
                return "op_(%r, %s, %s)" % (OPS["operator" + o], x, y)
            return "(%s %s %s)" % (x, o, y)
        if o == "/":
            return "%s(%s, %s)" % ("idiv_" if bare(tname(n)) in INTS else "div_", self.ex(a), self.ex(b))
        if o == "%":
            return "imod_(%s, %s)" % (self.ex(a), self.ex(b))
        raise Unsupported("C++ operator %s inside an expression" % o)

    def x_ConditionalOperator(self, n):
        c, a, b = self.kids(n)
        return "(%s if %s else %s)" % (self.ex(a), self.ex(c), self.ex(b))

    def x_CXXConstructExpr(self, n):
        kids = self.kids(n)
        t = bare(tname(n))
        ct = n.get("ctorType", {}).get("qualType", "")
        c = self.T.ctor(t, ct)
        if len(kids) == 1 and n.get("elidable"):
            return self.ex(kids[0])
        if len(kids) == 1 and c is not None and same_type(t, bare(tname(kids[0]))):
            return "%s.%s(%s)" % (c.cls, c.name, self.ex(kids[0]))
        if len(kids) == 1 and re.match(r"void \(const .*&\)|void \(.*&&\)", ct) and same_type(t, bare(tname(kids[0]))):
            return "copy_(%s)" % self.ex(kids[0])
        if c is not None:
            return "%s.%s(%s)" % (c.cls, c.name, self.args(kids))
        return "ctor_(%r, [%s])" % (t, self.args(kids))
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_CXXUnresolvedConstructExpr(self, n):
        raise Unsupported("C++ dependent construction")

    def x_CXXStdInitializerListExpr(self, n):
        return self.ex(self.kids(n)[0])

    def x_InitListExpr(self, n):
        t = bare(tname(n))
        xs = [self.ex(c) for c in self.kids(n) if c["kind"] != "ImplicitValueInitExpr" or True]
        if t.endswith("]") or "initializer_list" in t or t == "void":
            return "[%s]" % ", ".join(xs)
        if t in INTS | FLOATS and len(xs) == 1:
            return xs[0]
        return "ctor_(%r, [%s])" % (t, ", ".join(xs))

    def x_CXXNewExpr(self, n):
        return self.ex(self.kids(n)[-1])

    def x_CXXThrowExpr(self, n):
        k = self.kids(n)
        return "throw_(%s)" % (self.ex(k[0]) if k else "None")

    def x_UnresolvedLookupExpr(self, n):
        return "ext_(%r)" % n.get("name")

    def x_SizeOfPackExpr(self, n): raise Unsupported("sizeof...")

    def x_LambdaExpr(self, n):
        """a nested function defined just before the statement"""
        nm = self.fresh("_lambda")
        rec = [c for c in n["inner"] if c.get("kind") == "CXXRecordDecl"][0]
        ms = []
        for c in rec.get("inner", []):
            if c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()":
                ms += [d for d in c["inner"] if d.get("kind") == "CXXMethodDecl"]
            elif c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                ms.append(c)
        body = [c for c in n["inner"] if c.get("kind") == "CompoundStmt"][-1]
        m = ms[0]
        for other in ms[1:]:
            # an instance of a generic lambda: its expressions have their types resolved
            b = [c for c in other.get("inner", []) if c.get("kind") == "CompoundStmt"]
            if b:
                body, m = b[-1], other
                break
        ps = [self.name(p) for p in m.get("inner", []) if p.get("kind") == "ParmVarDecl"]
        # the parameters the body refers to may be those of the pattern or of an instance: same names
        for other in ms:
            for p, q in zip([p for p in other.get("inner", []) if p.get("kind") == "ParmVarDecl"], ps):
                self.names[p["id"]] = q
        save, self.lines = self.lines, []
        self.block(body, 1)
        inner, self.lines = self.lines, save
        self.pre.append("def %s(%s):" % (nm, ", ".join(ps)))
        self.pre += inner or ["    pass"]
        return nm

    # statements
    def emit(self, d, s):
        self.lines.append("    " * d + s)

    def stmt(self, n, d):
        k = n["kind"]
        save, self.pre = getattr(self, "pre", None), []
        mark = len(self.lines)
        f = getattr(self, "s_" + k, None)
        if f:
            f(n, d)
        else:
            self.expr_stmt(n, d)
        if self.pre:
            self.lines[mark:mark] = ["    " * d + l for l in self.pre]
        self.pre = save

    def block(self, n, d):
        mark = len(self.lines)
        for c in self.kids(n) if n["kind"] == "CompoundStmt" else [n]:
            self.stmt(c, d)
        if all(not l.strip() or l.lstrip().startswith("#") for l in self.lines[mark:]):
            self.emit(d, "pass")

    def expr_stmt(self, n, d):
        e = n
        while e["kind"] in PASS:
            e = self.kids(e)[0]
        k = e["kind"]
        if k == "BinaryOperator" and e["opcode"] == "=" or k == "CompoundAssignOperator":
            a, b = self.kids(e)
            op = e["opcode"][:-1]
            t = a
            while t["kind"] in PASS:
                t = self.kids(t)[0]
            val = self.ex(b)
            if t["kind"] == "DeclRefExpr" or t["kind"] == "MemberExpr":
                tgt = self.ex(t)
                if "(" in tgt:
                    raise Unsupported("C++ assignment to %s" % tgt)
                if op:
                    f = {"+": "op_('add', %s, %s)", "-": "op_('sub', %s, %s)", "*": "op_('mul', %s, %s)", "/": "%s(%%s, %%s)" % ("idiv_" if bare(tname(e)) in INTS else "div_")}.get(op)
                    if f is None:
                        raise Unsupported("C++ operator %s=" % op)
                    if op == "+" and t["kind"] == "DeclRefExpr":
                        self.emit(d, "%s += %s" % (tgt, val))
                    else:
                        self.emit(d, "%s = %s" % (tgt, f % (tgt, val)))
                else:
                    self.emit(d, "%s = %s" % (tgt, val))
            elif op:
                self.emit(d, "aug_(%r, %s, %s)" % (op, self.lv(t), val))
            else:
                self.emit(d, "%s.set_(%s)" % (self.lv(t), val))
            return
        if k == "UnaryOperator" and e["opcode"] in ("++", "--"):
            t = self.kids(e)[0]
            while t["kind"] in PASS:
                t = self.kids(t)[0]
            s = "+" if e["opcode"] == "++" else "-"
            if t["kind"] == "DeclRefExpr":
                self.emit(d, "%s %s= 1" % (self.ex(t), s))
            else:
                tgt = self.ex(t)
                if "(" in tgt:
                    self.emit(d, "aug_(%r, %s, 1)" % (s, self.lv(t)))
                else:
                    self.emit(d, "%s = op_(%r, %s, 1)" % (tgt, "add" if s == "+" else "sub", tgt))
            return
        x = self.ex(e)
        if x not in ("None", "0"):
            self.emit(d, x)

    def s_NullStmt(self, n, d): pass
    def s_CompoundStmt(self, n, d):
        for c in self.kids(n):
            self.stmt(c, d)

    def s_DeclStmt(self, n, d):
        for v in self.kids(n):
            if v["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl"):
                continue
            if v["kind"] != "VarDecl":
                raise Unsupported("C++ local declaration %s" % v["kind"])
            self.vardecl(v, d)

    def init(self, v):
        k = [c for c in self.kids(v)]
        if not k:
            t = bare(tname(v))
            return "undef_(%r)" % t if t in INTS | FLOATS or t.endswith("*") else "ctor_(%r, [])" % t
        e = k[-1]
        if is_ref(v) and not is_const_ref(v):
            return self.lv(e)
        return self.ex(e)

    def vardecl(self, v, d):
        x = self.init(v)
        self.emit(d, "%s = %s" % (self.name(v), x))

    def s_ReturnStmt(self, n, d):
        k = self.kids(n)
        self.emit(d, "return %s" % (self.ex(k[0]) if k else ""))

    def s_IfStmt(self, n, d):
        k = self.kids(n)
        if n.get("hasInit") or n.get("hasVar"):
            raise Unsupported("C++ if with a declaration")
        self.emit(d, "if %s:" % self.ex(k[0]))
        self.block(k[1], d + 1)
        if len(k) > 2:
            self.emit(d, "else:")
            self.block(k[2], d + 1)

    def s_ContinueStmt(self, n, d): self.emit(d, "continue")
    def s_BreakStmt(self, n, d): self.emit(d, "break")

    def s_SwitchStmt(self, n, d):
        k = self.kids(n)
        v = self.fresh("_sw")
        self.emit(d, "%s = %s" % (v, self.ex(k[0])))
        # groups of statements under their labels; every group must leave (return, throw or break): no fall-through into another
        groups, labels, cur = [], [], None

        def add(s):
            nonlocal labels, cur
            if s["kind"] in ("CaseStmt", "DefaultStmt"):
                c = self.kids(s)
                if cur is not None:
                    groups.append((labels, cur))
                    labels, cur = [], None
                labels = labels + [None if s["kind"] == "DefaultStmt" else self.ex(c[0])]
                add(c[-1])
            else:
                cur = (cur or []) + [s]
        for s in self.kids(k[1]):
            add(s)
        if cur is not None:
            groups.append((labels, cur))
        first = True
        default = None
        for labels, body in groups:
            last = body[-1]
            while last["kind"] in ("CompoundStmt",) and self.kids(last):
                last = self.kids(last)[-1]
            e = last
            while e["kind"] in PASS:
                e = self.kids(e)[0]
            if e["kind"] not in ("ReturnStmt", "BreakStmt", "CXXThrowExpr"):
                if (labels, body) is not groups[-1] and body is not groups[-1][1]:
                    raise Unsupported("C++ switch with fall-through")
            if last["kind"] == "BreakStmt" and body[-1] is last:
                body = body[:-1]
            if None in labels:
                default = body
                continue
            self.emit(d, "%s %s:" % ("if" if first else "elif", " or ".join("%s == %s" % (v, l) for l in labels)))
            first = False
            self.many(body, d + 1)
        if default is not None:
            if first:
                self.many(default, d)
            else:
                self.emit(d, "else:")
                self.many(default, d + 1)

    def many(self, body, d):
        mark = len(self.lines)
        for s in body:
            self.stmt(s, d)
        if len(self.lines) == mark:
            self.emit(d, "pass")

    # loops
    def s_ForStmt(self, n, d):
        inner = n["inner"]
        if len(inner) != 5:
            raise Unsupported("C++ for loop")
        init, cv, cond, inc, body = inner
        if cv.get("kind") or not all(x.get("kind") for x in (init, cond, inc)):
            raise Unsupported("C++ for loop")
        vs = self.kids(init)
        if init["kind"] != "DeclStmt" or len(vs) != 1:
            raise Unsupported("C++ for loop: initial statement")
        v = vs[0]
        while inc["kind"] in PASS:
            inc = self.kids(inc)[0]
        step = None
        if inc["kind"] == "UnaryOperator" and inc["opcode"] == "++" and self.refers(self.kids(inc)[0], v["id"]):
            step = "1"
        elif inc["kind"] == "CompoundAssignOperator" and inc["opcode"] == "+=" and self.refers(self.kids(inc)[0], v["id"]):
            step = self.ex(self.kids(inc)[1])
        while cond["kind"] in PASS:
            cond = self.kids(cond)[0]
        if step is None or cond["kind"] != "BinaryOperator" or cond["opcode"] not in ("<", "!=", "<=") or not self.refers(self.kids(cond)[0], v["id"]) \
                or not re.match(r"^\d+$", step):
            raise Unsupported("C++ for loop that does not count up")
        if self.changed(body, v["id"]):
            raise Unsupported("C++ for loop that changes its counter")
        lo = self.init(v)
        hi = self.ex(self.kids(cond)[1])
        if cond["opcode"] == "<=":
            hi = "op_('add', %s, 1)" % hi
        if cond["opcode"] == "!=" and step != "1":
            raise Unsupported("C++ for loop with != and a step")
        i = self.name(v)
        it = self.fresh("_n")
        self.emit(d, "%s = steps_(%s, %s, %s, %s)" % (it, lo, hi, step, cond["opcode"] == "!="))
        self.loop(d, i, it, body)

    def s_CXXForRangeStmt(self, n, d):
        inner = [c for c in n["inner"] if c.get("kind")]
        body = inner[-1]
        var = self.kids(inner[-2])[0]
        rng = None
        for c in inner:
            if c["kind"] == "DeclStmt":
                v = self.kids(c)[0]
                if v.get("name", "").startswith("__range"):
                    rng = v
        if rng is None:
            raise Unsupported("C++ range for")
        e = self.kids(rng)[-1]
        it = self.fresh("_n")
        byref = is_ref(var) and not is_const_ref(var)
        self.emit(d, "%s = each_(%s, %s)" % (it, self.lv(e) if byref else self.ex(e), byref))
        cv = not is_ref(var)
        self.loop(d, self.name(var), it, body, copy=cv and bare(tname(var)) not in INTS | FLOATS)

    def loop(self, d, var, it, body, copy=False):
        """the body, with variables that move by a constant every iteration made functions of the counter"""
        carried = self.inductive(body)
        if carried:
            t = self.fresh("_k")
            for key, (base, step, sub) in carried.items():
                self.emit(d, "%s0 = copy_(%s)" % (base, base))
            self.emit(d, "for %s, %s in enumerate(%s):" % (t, var, it))
            for key, (base, step, sub) in carried.items():
                self.emit(d + 1, self.moved(base, sub, step, t))
            self.moving = getattr(self, "moving", {})
            for key, (base, step, sub) in carried.items():
                self.moving[key] = (base, sub, step, "(%s + 1)" % t)
        else:
            self.emit(d, "for %s in %s:" % (var, it))
        if copy:
            self.emit(d + 1, "%s = copy_(%s)" % (var, var))
        mark = len(self.lines)
        for c in self.kids(body) if body["kind"] == "CompoundStmt" else [body]:
            e = c
            while e["kind"] in PASS:
                e = self.kids(e)[0]
            if carried and e["id"] in carried:
                base, step, sub = carried[e["id"]]
                self.emit(d + 1, self.moved(base, sub, step, "(%s + 1)" % t))
            else:
                self.stmt(c, d + 1)
        if len(self.lines) == mark:
            self.emit(d + 1, "pass")
        for key, (base, step, sub) in carried.items():
            self.emit(d, self.moved(base, sub, step, "count_(%s)" % it))

    def moved(self, base, sub, step, t):
        if sub is None:
            return "%s = op_('add', %s0, op_('mul', %s, %s))" % (base, base, step, t)
        return "%s = shifted_(%s0, %s, op_('mul', %s, %s))" % (base, base, sub, step, t)

    def inductive(self, body):
        """{id of statement: (variable, step, component or None)} for statements `v += c` / `v[k] += c` done once in every iteration"""
        out = {}
        if body["kind"] != "CompoundStmt":
            return out
        stmts = []
        for c in self.kids(body):
            e = c
            while e["kind"] in PASS:
                e = self.kids(e)[0]
            stmts.append(e)
        cands = {}
        for q, e in enumerate(stmts):
            r = self.bump(e)
            if r is None:
                continue
            vid, name, step, sub = r
            if vid not in self.names or self.declared_in(body, vid):
                continue
            cands.setdefault(vid, []).append((q, e, step, sub))
        for vid, xs in cands.items():
            if len(xs) != 1:
                continue
            q, e, step, sub = xs[0]
            # no continue before it, no other change
            if any(self.has(s, ("ContinueStmt", "BreakStmt", "ReturnStmt")) for s in stmts[:q]):
                continue
            if any(self.changed(s, vid) for p, s in enumerate(stmts) if p != q):
                continue
            uses = any(self.mentions(s, vid) for p, s in enumerate(stmts) if p != q)
            if sub is None and not uses:
                continue        # a plain accumulator: the loop machinery sums it
            out[e["id"]] = (self.names[vid], step, sub)
        return out

    def bump(self, e):
        lit = lambda x: self.literal(x)
        if e["kind"] == "CompoundAssignOperator" and e["opcode"] == "+=":
            a, b = self.kids(e)
            v = lit(b)
            while a["kind"] in PASS:
                a = self.kids(a)[0]
            if v is None:
                return None
            if a["kind"] == "DeclRefExpr":
                return a["referencedDecl"]["id"], None, v, None
            if a["kind"] == "CXXOperatorCallExpr":
                k = self.kids(a)
                nm, d, _ = self.callee(k[0])
                s = lit(k[2]) if nm == "operator[]" else None
                o = k[1]
                while o["kind"] in PASS or o["kind"] == "ImplicitCastExpr":
                    o = self.kids(o)[0]
                if s is not None and o["kind"] == "DeclRefExpr":
                    return o["referencedDecl"]["id"], None, v, s
        if e["kind"] == "UnaryOperator" and e["opcode"] == "++":
            a = self.kids(e)[0]
            while a["kind"] in PASS:
                a = self.kids(a)[0]
            if a["kind"] == "DeclRefExpr":
                return a["referencedDecl"]["id"], None, "1", None
        return None

    def literal(self, x):
        while x["kind"] in PASS or x["kind"] in ("ImplicitCastExpr",):
            x = self.kids(x)[0]
        if x["kind"] == "IntegerLiteral":
            return str(int(x["value"]))
        if x["kind"] == "FloatingLiteral":
            return "flit_(%r)" % x["value"]
        return None

    def refers(self, n, i):
        while n["kind"] in PASS or n["kind"] == "ImplicitCastExpr":
            n = self.kids(n)[0]
        return n["kind"] == "DeclRefExpr" and n["referencedDecl"]["id"] == i

    def walk(self, n):
        yield n
        for c in n.get("inner", []):
            if isinstance(c, dict) and c.get("kind"):
                yield from self.walk(c)

    def has(self, n, kinds):
        return any(x["kind"] in kinds for x in self.walk(n))

    def mentions(self, n, i):
        return any(x["kind"] == "DeclRefExpr" and x["referencedDecl"]["id"] == i for x in self.walk(n))

    def declared_in(self, n, i):
        return any(x.get("id") == i for x in self.walk(n))

    def target(self, t, i):
        """the variable is the object changed, or a part of it; not an index into another"""
        while t["kind"] in PASS or t["kind"] == "ImplicitCastExpr":
            t = self.kids(t)[0]
        if t["kind"] == "DeclRefExpr":
            return t["referencedDecl"]["id"] == i
        if t["kind"] == "ArraySubscriptExpr":
            return self.target(self.kids(t)[0], i)
        if t["kind"] == "CXXOperatorCallExpr" and self.callee(self.kids(t)[0])[0] in ("operator[]", "operator()"):
            return self.target(self.kids(t)[1], i)
        return self.mentions(t, i)

    def changed(self, n, i):
        for x in self.walk(n):
            k = x["kind"]
            if k == "CompoundAssignOperator" or k == "BinaryOperator" and x["opcode"] == "=" or k == "UnaryOperator" and x["opcode"] in ("++", "--", "&"):
                if self.target(self.kids(x)[0], i):
                    return True
            if k == "CXXOperatorCallExpr":
                nm = self.callee(self.kids(x)[0])[0]
                if nm and nm.endswith("=") and nm not in ("operator==", "operator!=", "operator<=", "operator>=") and self.target(self.kids(x)[1], i):
                    return True
                if nm in ("operator++", "operator--") and self.target(self.kids(x)[1], i):
                    return True
        return False

    def s_WhileStmt(self, n, d): raise Unsupported("C++ while loop")
    def s_DoStmt(self, n, d):
        # do { ... } while (0) of macros
        b, c = self.kids(n)
        if self.literal(c) == "0":
            return self.block(b, d)
        raise Unsupported("C++ do loop")

    def s_CXXTryStmt(self, n, d): raise Unsupported("C++ try")


def same_type(a, b):
    f = lambda t: re.sub(r"^(std|sumo|Eigen|cv|tinygltf)::", "", re.sub(r"\b(std|sumo|Eigen|cv|tinygltf|Mesh|PointCloud|TexturedMesh)::", "", t)).replace(" ", "")
    return f(a) == f(b)


class Decl:
    """a function of the namespace"""

    def __init__(self, cls, name, node):
        self.cls, self.name, self.base, self.node, self.body, self.virtual = cls, name, name, node, None, False

    def qual(self):
        return "%s.%s" % (self.cls, self.name) if self.cls else self.name


class Unit:
    def __init__(self, docs):
        self.decls, self.enums, self.globals, self.classes, self.funcs, self.gdefs = {}, {}, {}, {}, [], []
        for d in docs:
            self.collect(d, None)

    def ctor(self, t, ct):
        t = t.split("::")[-1]
        c = self.classes.get(t)
        if c is None:
            return None
        norm = lambda q: re.sub(r"\b\w+::", "", q).replace("noexcept", "").replace(" ", "")
        for d in c["ctors"]:
            if d.node.get("type", {}).get("qualType") == ct or norm(d.node.get("type", {}).get("qualType", "")) == norm(ct):
                return d
        return None

    def collect(self, n, cls):
        for c in n.get("inner", []):
            k = c.get("kind")
            if k in ("NamespaceDecl", "LinkageSpecDecl"):
                self.collect(c, cls)
            elif k == "CXXRecordDecl":
                if not c.get("completeDefinition"):
                    continue
                nm = c.get("name")
                if nm is None:
                    continue
                if nm in self.classes:
                    continue
                bases = [b["type"].get("desugaredQualType", b["type"]["qualType"]).split("::")[-1] for b in c.get("bases", [])]
                self.classes[nm] = {"bases": bases, "ctors": [], "methods": [], "fields": [], "node": c}
                self.collect(c, nm)
            elif k == "FieldDecl" and cls:
                self.classes[cls]["fields"].append(c)
            elif k == "EnumDecl":
                v = 0
                for e in c.get("inner", []):
                    if e.get("kind") == "EnumConstantDecl":
                        for x in e.get("inner", []):
                            if x.get("kind") == "ConstantExpr" and "value" in x:
                                v = int(x["value"])
                        self.enums[e["id"]] = v
                        v += 1
            elif k in ("CXXMethodDecl", "FunctionDecl", "CXXConstructorDecl"):
                self.func(c, cls)
            elif k == "VarDecl":
                self.globals[c["id"]] = c["name"]
                self.gdefs.append(c)

    def func(self, c, cls):
        body = [x for x in c.get("inner", []) if x.get("kind") == "CompoundStmt"]
        prev = c.get("previousDecl")
        if prev in self.decls:
            d = self.decls[prev]
            self.decls[c["id"]] = d
            if body:
                d.body, d.impl = body[0], c
            return
        if c["kind"] == "CXXConstructorDecl":
            if c.get("isImplicit") and not body:
                return
            lst = self.classes[cls]["ctors"]
            d = Decl(cls, "ctor%d" % len(lst), c)
            lst.append(d)
        else:
            if c.get("isImplicit"):
                return
            nm = c["name"]
            m = re.match(r"operator\s*(.*)$", nm)
            if m:
                nm = "operator_" + "".join("_%x" % ord(ch) for ch in m.group(1))
            lst = self.classes[cls]["methods"] if cls else self.funcs
            k = sum(1 for o in lst if o.base == nm)
            d = Decl(cls, nm if not k else "%s__%d" % (nm, k), c)
            d.base = nm
            lst.append(d)
        d.virtual = bool(c.get("virtual"))
        self.decls[c["id"]] = d
        if body:
            d.body, d.impl = body[0], c


def params(F, c):
    out = []
    for p in c.get("inner", []):
        if p.get("kind") == "ParmVarDecl":
            s = F.name(p) if p.get("name") else F.fresh("_unused")
            out.append((s, p))
    return out


def translate(docs):
    """Python text of the unit; notes"""
    U = Unit(docs)
    out, notes = [], []

    def function(d, indent, static):
        F = Fn(U)
        # default arguments are written in the first declaration
        decl_ps = [p for p in d.node.get("inner", []) if p.get("kind") == "ParmVarDecl"]
        ps = params(F, d.impl)
        sig = [] if static else ["self"]
        for (s, p), q in zip(ps, decl_ps):
            dflt = None
            for src in (q, p):
                k = [x for x in src.get("inner", []) if x.get("kind") and not x["kind"].endswith(("Comment", "Attr"))]
                if src.get("init") and k:
                    F.pre = []
                    dflt = F.ex(k[-1])
            sig.append("%s=%s" % (s, "None" if dflt is None else "DEFAULT_(lambda: %s)" % dflt) if dflt is not None else s)
        lines = []
        for (s, p), q in zip(ps, decl_ps):
            if any(x.startswith(s + "=DEFAULT_") for x in sig):
                lines.append("    %s = given_(%s)" % (s, s))
            # by-value class parameters are copies
            if not is_ref(p) and bare(tname(p)) not in INTS | FLOATS and not bare(tname(p)).endswith("*"):
                el = re.match(r"(?:const )?(?:std::)?vector<(.*)>$", tname(p).strip())
                lines.append("    %s = copy_(%s)" % (s, s) if el is None else "    %s = vparam_(%s, %r)" % (s, s, el.group(1)))
        F.lines = lines
        try:
            F.block(d.body, 1)
        except Unsupported as ex:
            F.lines = ["    unsupported_(%r)" % str(ex)]
            notes.append("%s: %s" % (d.qual(), ex))
        return ["def %s(%s):" % (d.name, ", ".join(sig))] + F.lines

    def ctor(cls, d):
        F = Fn(U)
        ps = params(F, d.impl)
        decl_ps = [p for p in d.node.get("inner", []) if p.get("kind") == "ParmVarDecl"]
        sig = []
        lines = ["    self = raw_(%s)" % cls]
        for (s, p), q in zip(ps, decl_ps):
            k = [x for x in q.get("inner", []) if x.get("kind") and not x["kind"].endswith(("Comment", "Attr"))]
            if q.get("init") and k:
                F.pre = []
                sig.append("%s=DEFAULT_(lambda: %s)" % (s, F.ex(k[-1])))
                lines.append("    %s = given_(%s)" % (s, s))
            else:
                sig.append(s)
        F.lines = lines
        try:
            for i in d.impl.get("inner", []):
                if i.get("kind") != "CXXCtorInitializer":
                    continue
                F.pre = []
                k = F.kids(i)
                if i.get("anyInit"):
                    f = i["anyInit"]
                    x = F.lv(k[0]) if False else F.ex(k[0])
                    F.lines += ["    " + l for l in F.pre]
                    F.emit(1, "self.%s = copy_(%s)" % (f["name"], x) if not f["type"]["qualType"].rstrip().endswith("&") else "self.%s = %s" % (f["name"], x))
                elif i.get("baseInit"):
                    e = k[0]
                    while e["kind"] in PASS:
                        e = F.kids(e)[0]
                    c = U.ctor(bare(tname(e)), e.get("ctorType", {}).get("qualType", ""))
                    if c is None:
                        raise Unsupported("C++ base constructor")
                    F.emit(1, "base_(self, %s.%s(%s))" % (c.cls, c.name, F.args(F.kids(e))))
                else:
                    raise Unsupported("C++ constructor initializer")
            F.block(d.body, 1)
            F.lines = [l for l in F.lines if l.strip() != "pass" or len(l) - len(l.lstrip()) > 4]
        except Unsupported as ex:
            F.lines = ["    unsupported_(%r)" % str(ex)]
            notes.append("%s constructor: %s" % (cls, ex))
        return ["def %s(%s):" % (d.name, ", ".join(sig))] + F.lines + ["    return self"]

    done = set()

    def klass(nm):
        if nm in done:
            return
        done.add(nm)
        c = U.classes[nm]
        for b in c["bases"]:
            if b in U.classes:
                klass(b)
        out.append("class %s(%s):" % (nm, ", ".join(b for b in c["bases"] if b in U.classes) or "Obj_"))
        fs = []
        for f in c["fields"]:
            if f.get("name"):
                fs.append((f["name"], bare(tname(f)), f["type"]["qualType"]))
        out.append("    _fields_ = %r" % (fs,))
        for d in c["methods"]:
            if d.body is None:
                continue
            st = d.node.get("storageClass") == "static"
            if st:
                out.append("    @staticmethod")
            out.extend("    " + l for l in function(d, 1, st))
        for d in c["ctors"]:
            if d.body is None:
                continue
            out.append("    @staticmethod")
            out.extend("    " + l for l in ctor(nm, d))
            out.append("    %s_t = %r" % (d.name, [bare(tname(p)) for p in d.impl.get("inner", []) if p.get("kind") == "ParmVarDecl"]))
        out.append("")
    for nm in U.classes:
        klass(nm)
    for d in U.funcs:
        if d.body is not None:
            out.extend(function(d, 0, True))
            out.append("")
    return "\n".join(out) + "\n", notes, U
