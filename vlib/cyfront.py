"""Cython front end: mechanical translation of a .pyx file to Python text.

Kept: every statement and expression of def/cdef/cpdef functions and classes.
Dropped: cimport lines, `cdef extern` / ctypedef declarations, static types of
array/object variables.  C scalar types are not dropped: parameters, typed
assignments, casts `<T>e` and typed returns become calls __cast("T", e); C++
object declarations become __cnew("T"); `new T(...)` becomes __new("T")(...).
"""
import io
import tokenize

SCALARS = {"Uint8": "uint8", "Uint16": "uint16", "Float32": "float32", "float": "float32", "double": "float64",
           "int": "int32", "size_t": "uint64", "np.float32_t": "float32", "np.double_t": "float64",
           "np.uint32_t": "uint32", "unsigned int": "uint32", "bint": "bool", "bool": "bool", "np.uint8_t": "uint8",
           "unsigned char": "uint8"}
SKIP = (tokenize.COMMENT, tokenize.NL)


def _txt(toks):
    """Re-space tokens so that the result is valid Python."""
    out = ""
    prev = None
    for t in toks:
        if prev is not None and (prev.type in (tokenize.NAME, tokenize.NUMBER, tokenize.STRING) and t.type in (tokenize.NAME, tokenize.NUMBER, tokenize.STRING)):
            out += " "
        out += t.string
        if t.string in (",", ":", "=") or (t.type == tokenize.OP and t.string not in "()[]{}.@"):
            out += " "
        prev = t
    return out


class T:
    __slots__ = ("type", "string")

    def __init__(self, type, string):
        self.type, self.string = type, string


def _split(toks, sep=","):
    parts, depth, curp = [], 0, []
    for t in toks:
        if t.string in ("(", "[", "{"):
            depth += 1
        elif t.string in (")", "]", "}"):
            depth -= 1
        if t.string == sep and depth == 0:
            parts.append(curp)
            curp = []
        else:
            curp.append(t)
    if curp:
        parts.append(curp)
    return parts


def _typename(toks):
    return " ".join(t.string for t in toks).replace(" . ", ".").replace(" [ ", "[").replace(" ]", "]").replace(" , ", ",").replace("const ", "").strip()


def _find_close(toks, i):
    depth = 0
    for j in range(i, len(toks)):
        if toks[j].string in "([{":
            depth += 1
        elif toks[j].string in ")]}":
            depth -= 1
            if depth == 0:
                return j
    return len(toks) - 1


KW = {"return", "in", "and", "or", "not", "if", "else", "print", "yield", "assert", "is", "lambda", "del", "raise", "elif", "while"}


def _expr(toks):
    """Rewrite casts, `new` and address-of inside an expression token list."""
    out = []
    i = 0
    n = len(toks)
    while i < n:
        t = toks[i]
        prev = out[-1] if out else None
        prefix = prev is None or (prev.type == tokenize.OP and prev.string not in (")", "]", "}")) or (prev.type == tokenize.NAME and prev.string in KW)
        if t.string == "<" and prefix:
            j = i + 1
            while j < n and toks[j].string != ">":
                j += 1
            ty = _typename(toks[i + 1:j])
            # operand: unary primary with trailers
            k = j + 1
            e = k
            if toks[k].string in ("-", "+", "&", "*"):
                e += 1
            if toks[e].string in "([{":
                e = _find_close(toks, e) + 1
            else:
                e += 1
            while e < n and toks[e].string in (".", "(", "["):
                if toks[e].string == ".":
                    e += 2
                else:
                    e = _find_close(toks, e) + 1
            inner = _expr(toks[k:e])
            out += [T(tokenize.NAME, "__cast"), T(tokenize.OP, "("), T(tokenize.STRING, repr(SCALARS.get(ty, ty))), T(tokenize.OP, ",")] + inner + [T(tokenize.OP, ")")]
            i = e
            continue
        if t.string == "new" and i + 1 < n and toks[i + 1].type == tokenize.NAME:
            j = i + 1
            while j < n and toks[j].string != "(":
                j += 1
            out += [T(tokenize.NAME, "__new"), T(tokenize.OP, "("), T(tokenize.STRING, repr(_typename(toks[i + 1:j]))), T(tokenize.OP, ")")]
            i = j
            continue
        if t.string == "&" and prefix:
            i += 1
            continue
        out.append(t)
        i += 1
    return out


def _args(toks):
    """Parameter list -> (python text, [(name, ctype)])."""
    res, conv = [], []
    for part in _split(toks):
        parts = _split(part, "=")
        lhs = parts[0]
        default = part[len(lhs) + 1:] if len(parts) > 1 else None
        names = [t for t in lhs]
        if len(names) > 2 and names[-1].string == "None" and names[-2].string == "not":
            names = names[:-2]
        if names and names[0].string in ("*", "**"):
            res.append(_txt(names))
            continue
        name = names[-1].string
        ty = _typename(names[:-1])
        if ty in SCALARS:
            conv.append((name, SCALARS[ty]))
        res.append(name + ("=" + _txt(_expr(default)) if default else ""))
    return ", ".join(res), conv


def translate(src):
    """Returns (python_source, notes)."""
    notes = {"dropped": [], "conversions": 0}
    # tokenize; work per logical line
    gen = tokenize.generate_tokens(io.StringIO(src).readline)
    lines = src.split("\n")
    logical = []
    curl = []
    indents = [0]
    for tok in gen:
        if tok.type in (tokenize.INDENT, tokenize.DEDENT, tokenize.ENDMARKER):
            continue
        if tok.type in SKIP:
            continue
        if tok.type == tokenize.NEWLINE:
            if curl:
                logical.append(curl)
            curl = []
            continue
        curl.append(tok)
    if curl:
        logical.append(curl)
    out = []
    skip_indent = None
    ret_stack = []      # (indent, ctype)
    typed = {}          # C scalar variables of the function
    for toks in logical:
        ind = len(lines[toks[0].start[0] - 1]) - len(lines[toks[0].start[0] - 1].lstrip())
        ind = toks[0].start[1]
        if skip_indent is not None:
            if ind > skip_indent:
                continue
            skip_indent = None
        while ret_stack and ind <= ret_stack[-1][0]:
            ret_stack.pop()
        pad = " " * ind
        s = [t.string for t in toks]
        if s[0] == "cimport" or (s[0] == "from" and "cimport" in s):
            notes["dropped"].append(" ".join(s)[:80])
            continue
        if s[0] == "ctypedef":
            continue
        if s[0] == "cdef" and len(s) > 1 and s[1] == "extern":
            skip_indent = ind
            continue
        if s[0] in ("cdef", "cpdef") and len(s) > 1 and s[1] == "enum":
            skip_indent = ind
            continue
        if s[0] == "cdef" and s[1] == "class":
            out.append(pad + _txt(toks[1:]))
            continue
        raw = "\n".join(lines[toks[0].start[0] - 1:toks[-1].end[0]])
        if s[0] in ("cdef", "cpdef", "def"):
            # function?
            is_fun = s[-1] == ":" and "(" in s
            if s[0] == "def" or is_fun:
                p = s.index("(")
                close = _find_close(toks, p)
                name = s[p - 1]
                if name == "__cinit__":
                    name = "__init__"       # no class of this repository defines both
                rtype = _typename(toks[1:p - 1]) if s[0] != "def" else ""
                a, conv = _args(toks[p + 1:close])
                typed = dict(conv)
                out.append(pad + "def %s(%s):" % (name, a))
                body = toks[close + 1:]
                ret_stack.append((ind, SCALARS.get(rtype)))
                # rest after ':' on the same line
                colon = [t.string for t in body].index(":")
                for nme, ty in conv:
                    notes["conversions"] += 1
                # conversions are emitted as first statements (after docstring order is irrelevant)
                if conv:
                    out.append(("CONV", ind, conv))
                rest = body[colon + 1:]
                if rest:
                    out.append(pad + "    " + _txt(_expr(rest)))
                continue
            # variable declaration
            toks1 = toks[1:]
            parts = _split(toks1)
            first = _split(parts[0], "=")
            if len(first) > 1:
                lhs = first[0]
                rhs = toks1[len(lhs) + 1:]
                name, ty = lhs[-1].string, _typename(lhs[:-1])
                e = _txt(_expr(rhs))
                if ty in SCALARS:
                    e = "__cast(%r, %s)" % (SCALARS[ty], e)
                    typed[name] = SCALARS[ty]
                out.append(pad + "%s = %s" % (name, e))
            else:
                # `cdef T a, b`
                lhs = [t for t in parts[0] if t.string not in ("*", "&", ";")]
                ty = _typename([t for t in lhs[:-1]])
                names = [lhs[-1].string] + [[t.string for t in p if t.type == tokenize.NAME][-1] for p in parts[1:]]
                ptr = parts[0][0].string != "vector" and any(t.string == "*" for t in parts[0])
                if ty in SCALARS and not ptr:
                    typed.update((n, SCALARS[ty]) for n in names)
                if ty in SCALARS or ptr or ty.startswith("np.ndarray"):
                    out.append(pad + "pass")
                else:
                    for nme in names:
                        out.append(pad + "%s = __cnew(%r)" % (nme, ty))
            continue
        if s[0] == "del" and len(s) > 3 and s[-2] == "." and toks[-1].type == tokenize.NAME:
            out.append(pad + _txt(_expr(toks[1:])) + " = None")      # C++ delete: the object must not be used again
            continue
        changed = _expr(toks)
        if len(changed) != len(toks) or any(a is not b for a, b in zip(changed, toks)):
            txt = _txt(changed)
        else:
            txt = None
        if s[0] == "return" and ret_stack and ret_stack[-1][1] and len(toks) > 1:
            out.append(pad + "return __cast(%r, %s)" % (ret_stack[-1][1], _txt(changed[1:]).rstrip("; ")))
        elif s[0] in typed and len(s) > 2 and s[1] == "=" and len(_split(toks, "=")) == 2:
            out.append(pad + "%s = __cast(%r, %s)" % (s[0], typed[s[0]], _txt(changed[2:]).rstrip("; ")))
        elif txt is None:
            # verbatim, without trailing comments being an issue
            first_line = raw
            out.append(first_line)
        else:
            out.append(pad + txt)
    # place conversions after the docstring / first statement position
    res = []
    i = 0
    while i < len(out):
        o = out[i]
        if isinstance(o, tuple):
            _, ind, conv = o
            nxt = out[i + 1] if i + 1 < len(out) else None
            # indentation of the body
            j = i + 1
            while j < len(out) and isinstance(out[j], tuple):
                j += 1
            body_ind = len(out[j]) - len(out[j].lstrip()) if j < len(out) else ind + 4
            if isinstance(nxt, str) and nxt.strip().startswith(('"', "'", 'r"', "u'")):
                res.append(nxt)
                i += 1
            for nme, ty in conv:
                res.append(" " * body_ind + "%s = __cast(%r, %s)" % (nme, ty, nme))
            i += 1
            continue
        res.append(o)
        i += 1
    return "\n".join(res) + "\n", notes


if __name__ == "__main__":
    import sys
    for f in sys.argv[1:]:
        t, n = translate(open(f).read())
        try:
            compile(t, f, "exec")
            print(f, "ok", n["conversions"])
        except SyntaxError as e:
            print(f, e, e.text)
