"""Contracts written once (contracts/*.spec), given to goto-instrument as
__CPROVER_requires/ensures/assigns/frees clauses and turned into wrappers that
evaluate the very same clauses for the counterexample search and the replay.

  contract RET NAME(ARGS)
    requires EXPR
    assigns TARGETS
    frees TARGETS
    havoc CODE                         (gives any value to what is assigned)
    ensures P05,P06 label: EXPR        (ret: result, old(E): E before the call)

Lines starting with more indentation than the clause continue it.
"""
import re


class Contract:
    def __init__(self, ret, name, args):
        self.ret, self.name, self.args = ret, name, args
        self.requires, self.assigns, self.frees, self.ensures, self.havoc = [], [], [], [], []

    def argnames(self):
        out = []
        for a in split_commas(self.args):
            a = a.strip()
            if a in ("void", ""):
                continue
            m = re.match(r".*\(\s*\*\s*(\w+)\s*\)\s*\(", a)
            out.append(m.group(1) if m else re.search(r"(\w+)\s*(\[\s*\])?$", a).group(1))
        return out


def split_commas(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def parse(path):
    contracts, pre = [], []
    logical = []
    with open(path) as f:
        for raw in f:
            line = raw.rstrip("\n")
            if not line.strip() or line.lstrip().startswith("#"):
                continue
            m = re.match(r"^(\s*)(contract|requires|assigns|frees|ensures|havoc)\b\s*(.*)$", line)
            if m:
                logical.append([m.group(2), m.group(3).strip()])
            else:
                logical[-1][1] += " " + line.strip()
    cur = None
    for kw, text in logical:
        if kw == "contract":
            m = re.match(r"^(.*?)\b(\w+)\s*\((.*)\)$", text)
            cur = Contract(m.group(1).strip(), m.group(2), m.group(3).strip())
            contracts.append(cur)
        elif kw == "ensures":
            m = re.match(r"^([PC0-9,]+)\s+([\w.-]+):\s*(.*)$", text)
            if not m:
                raise ValueError("%s: bad ensures: %s" % (path, text))
            cur.ensures.append((m.group(1), m.group(2), m.group(3)))
        else:
            getattr(cur, kw).append(text)
    return contracts


def find_old(expr):
    """[(start, end, inner)] of every old(...)"""
    out = []
    for m in re.finditer(r"\bold\(", expr):
        depth, i = 1, m.end()
        while depth:
            depth += {"(": 1, ")": -1}.get(expr[i], 0)
            i += 1
        out.append((m.start(), i, expr[m.end():i - 1]))
    return out


def guards(inner):
    """pointers dereferenced in an old() expression"""
    g = []
    for m in re.finditer(r"->", inner):
        j = m.start()
        k = j
        while k > 0 and re.match(r"[\w.>\-\]\[]", inner[k - 1]):
            k -= 1
        base = inner[k:j]
        if base and base not in g:
            g.append(base)
    for m in re.finditer(r"(?<![\w)\]]\s)\*\s*([A-Za-z_]\w*)", inner):
        if m.group(1) not in g:
            g.append(m.group(1))
    return g


def gen_dfcc(contracts, only=None):
    """text of the declarations with clauses, {line: label}"""
    # What is dereferenced in clauses is guarded by other clauses, or the value
    # is not used
    lines, labels = ["#pragma CPROVER check push", '#pragma CPROVER check disable "pointer"',
                     '#pragma CPROVER check disable "bounds"'], {}
    for c in contracts:
        if only is not None and c.name not in only:
            continue
        lines.append("%s %s(%s)" % (c.ret, c.name, c.args))
        for r in c.requires:
            lines.append("__CPROVER_requires(%s)" % r)
        env = "vp_env, vp_log, errno" if False else "__CPROVER_object_whole(&vp_env), vp_log"
        for a in c.assigns:
            lines.append("__CPROVER_assigns(%s)" % a)
        lines.append("__CPROVER_assigns(%s)" % env)
        for fr in c.frees:
            lines.append("__CPROVER_frees(%s)" % fr)
        for props, label, e in c.ensures:
            for s, t, inner in reversed(find_old(e)):
                e = e[:s] + "__CPROVER_old(" + inner + ")" + e[t:]
            e = re.sub(r"\bret\b", "__CPROVER_return_value", e)
            lines.append("__CPROVER_ensures(%s)" % e)
            labels[len(lines)] = "%s:%s.%s" % (props, c.name, label)
        lines.append(";")
    lines.append("#pragma CPROVER check pop")
    return "\n".join(lines) + "\n", labels


def gen_plain(contracts):
    out = []
    for c in contracts:
        names = c.argnames()
        out.append("static inline %s vpc_%s(%s)" % (c.ret, c.name, c.args))
        out.append("{")
        olds = {}
        body = []
        for props, label, e in c.ensures:
            for s, t, inner in reversed(find_old(e)):
                if inner not in olds:
                    olds[inner] = "vp_old%d" % len(olds)
                e = e[:s] + olds[inner] + e[t:]
            e = re.sub(r"\bret\b", "vp_ret", e)
            body.append('\tCHECK("%s:%s.%s", %s);' % (props, c.name, label, e))
        for r in c.requires:
            out.append("\tASSUME(%s);" % r)
        for inner, var in olds.items():
            g = " && ".join("(%s) != NULL" % x for x in guards(inner))
            out.append("\t__typeof__(%s) %s;" % (inner, var))
            out.append("\tmemset(&%s, 0, sizeof(%s));" % (var, var))
            out.append("\tif (%s) %s = %s;" % (g or "1", var, inner))
        call = "%s(%s)" % (c.name, ", ".join(names))
        if c.ret == "void":
            out.append("\t%s;" % call)
        else:
            out.append("\t%s vp_ret = %s;" % (c.ret, call))
        out += body
        if c.ret != "void":
            out.append("\treturn vp_ret;")
        out.append("}")
    return "\n".join(out) + "\n"


def gen_replace(contracts, names):
    """functions that stand for these in their callers: anything that satisfies
    the contract"""
    out = ["#ifdef VP_REPLACE", "#pragma CPROVER check push",
           '#pragma CPROVER check disable "pointer"', '#pragma CPROVER check disable "bounds"']
    for c in contracts:
        if c.name not in names:
            continue
        if not c.havoc and c.assigns:
            raise ValueError("%s: no havoc clause" % c.name)
        out.append("%s vpr_%s(%s)" % (c.ret, c.name, c.args))
        out.append("{")
        olds, body = {}, []
        for props, label, e in c.ensures:
            for s, t, inner in reversed(find_old(e)):
                if inner not in olds:
                    olds[inner] = "vp_old%d" % len(olds)
                e = e[:s] + olds[inner] + e[t:]
            body.append("\tASSUME(%s);" % re.sub(r"\bret\b", "vp_ret", e))
        for r in c.requires:
            out.append('\tCHECK("pre:%s", %s);' % (c.name, r))
        for inner, var in olds.items():
            g = " && ".join("(%s) != NULL" % x for x in guards(inner))
            out.append("\t__typeof__(%s) %s;" % (inner, var))
            out.append("\tmemset(&%s, 0, sizeof(%s));" % (var, var))
            out.append("\tif (%s) %s = %s;" % (g or "1", var, inner))
        if c.ret != "void":
            out.append("\t%s vp_ret;" % c.ret)
        for h in c.havoc:
            out.append("\t" + re.sub(r"\bret\b", "vp_ret", h))
        out += body
        if c.ret != "void":
            out.append("\treturn vp_ret;")
        out.append("}")
    out += ["#pragma CPROVER check pop", "#endif"]
    return "\n".join(out) + "\n"
