#!/usr/bin/env python3
"""float_axioms.py [--timeout s]

Checks every axiom of contracts/00_float.vrs marked [fp] against the IEEE-754 binary32 theory of
SMT-LIB (z3, then cvc5): the axiom's text is parsed, its negation is handed to the solver, `unsat`
means the fact holds for all machine floats.  The theory has a single NaN; see DESIGN.md.
Prints one line per axiom, exit 0 when every marked axiom is valid and 1 when one is refuted;
an axiom neither solver decides is listed as assumed.

Axioms marked [flocq] are out of the solvers' reach (rounding is monotone, rounding errors) and have a
Rocq proof over Flocq's binary32 in contracts/float_facts.v, a lemma with the axiom's name without `ax_`:
the statement is generated here from the axiom's text and checked by coqc against that lemma.
"""
import re, subprocess, sys, os, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
F = "(_ FloatingPoint 8 24)"
OPS = {  # the meaning of the uninterpreted functions
 "fadd": lambda a, b: f"(fp.add RNE {a} {b})", "fsub": lambda a, b: f"(fp.sub RNE {a} {b})",
 "fmul": lambda a, b: f"(fp.mul RNE {a} {b})", "fdiv": lambda a, b: f"(fp.div RNE {a} {b})",
 "fneg": lambda a: f"(fp.neg {a})", "fgt": lambda a, b: f"(fp.gt {a} {b})", "feq": lambda a, b: f"(fp.eq {a} {b})",
 # f32::max: the other operand when one is NaN; which zero max(+0,-0) gives is left open by `zz`
 "fmax": lambda a, b: f"(ite (fp.isNaN {a}) {b} (ite (fp.isNaN {b}) {a} (ite (and (fp.isZero {a}) (fp.isZero {b})) (ite zz {a} {b}) (ite (fp.gt {a} {b}) {a} {b}))))",
 "fabs": lambda a: f"(fp.abs {a})", "fsqrt": lambda a: f"(fp.sqrt RNE {a})",
 "ninf": lambda: "(_ -oo 8 24)", "fnan": lambda a: f"(fp.isNaN {a})", "ffinite": lambda a: f"(not (or (fp.isNaN {a}) (fp.isInfinite {a})))",
 "fneg0": lambda a: f"(and (fp.isZero {a}) (fp.isNegative {a}))",
}
class P:
    def __init__(s, text, defs):
        s.t = re.findall(r"[0-9]+\.[0-9]+f32|[A-Za-z_]\w*|==|!=|&&|\|\||[!(){},|:;]|#\[trigger\]", text); s.i = 0; s.defs = defs
        s.t = [x for x in s.t if x != "#[trigger]"]
    def peek(s): return s.t[s.i] if s.i < len(s.t) else None
    def eat(s, x=None):
        v = s.peek()
        if x is not None and v != x: raise SyntaxError(f"expected {x}, found {v}: {s.t}")
        s.i += 1; return v
    def clauses(s):
        out = []
        while s.peek() not in (None, ";"):
            out.append(s.expr())
            if s.peek() == ",": s.eat()
        return out
    def expr(s):
        if s.peek() == "forall":
            s.eat(); s.eat("|"); v = s.eat(); s.eat(":"); s.eat("f32"); s.eat("|")
            return f"(forall (({v} {F})) {s.expr()})"
        l = s.conj()
        while s.peek() == "||": s.eat(); l = f"(or {l} {s.conj()})"
        return l
    def conj(s):
        l = s.rel()
        while s.peek() == "&&": s.eat(); l = f"(and {l} {s.rel()})"
        return l
    def rel(s):
        l = s.un()
        if s.peek() in ("==", "!="):
            o = s.eat(); r = s.un()
            return f"(= {l} {r})" if o == "==" else f"(not (= {l} {r}))"
        return l
    def un(s):
        if s.peek() == "!": s.eat(); return f"(not {s.un()})"
        return s.atom()
    def atom(s):
        t = s.eat()
        if t == "(": e = s.expr(); s.eat(")"); return e
        if t == "if":
            c = s.expr(); s.eat("{"); a = s.expr(); s.eat("}"); s.eat("else"); s.eat("{"); b = s.expr(); s.eat("}")
            return f"(ite {c} {a} {b})"
        if t.endswith("f32") and t[0].isdigit(): return f"((_ to_fp 8 24) RNE {t[:-3]})"
        if s.peek() == "(":
            s.eat(); a = []
            while s.peek() != ")":
                a.append(s.expr())
                if s.peek() == ",": s.eat()
            s.eat(")")
            if t in s.defs:
                ps, body = s.defs[t]; return "(let (%s) %s)" % (" ".join(f"({p} {x})" for p, x in zip(ps, a)), body)
            return OPS[t](*a)
        return t
def load():
    defs, ax = {}, []
    for l in open(HERE + "/contracts/00_float.vrs"):
        l = l.strip()
        m = re.match(r"pub open spec fn (\w+)\(([^)]*)\) -> bool \{(.*)\}", l)
        if m: defs[m[1]] = ([p.split(":")[0].strip() for p in m[2].split(",")], P(m[3], defs).expr())
        if "// [fp]" in l:
            m = re.match(r"pub (?:broadcast )?axiom fn (\w+)\(([^)]*)\)(?: requires (.*?))? ensures (.*?);? // \[fp\]", l)
            if not m: raise SyntaxError(l)
            ps = [p.split(":")[0].strip() for p in m[2].split(",") if p.strip()]
            ax.append((m[1], ps, P(m[3] or "", defs).clauses(), P(m[4].rstrip(";"), defs).clauses(), m[3] or ""))
    return ax
def query(ps, req, ens, same=()):
    same = dict(same)
    q = ["(set-logic ALL)", "(define-fun RNE () RoundingMode roundNearestTiesToEven)", "(declare-const zz Bool)"]
    q += [f"(declare-const {p} {F})" for p in ps if p not in same] + [f"(define-fun {y} () {F} {x})" for y, x in same.items()] + [f"(assert {r})" for r in req]
    q += [f"(assert (not (and true {' '.join(ens)})))", "(check-sat)"]
    return "\n".join(q) + "\n"
def queries(n, ps, req, ens, text):
    """one query per postcondition; for x ~ y (same number up to the sign of zero, or both NaN) split into
    x identical to y and both zero, with a query that these are all cases"""
    pairs = re.findall(r"fsim\((\w), (\w)\)", text)
    if len(pairs) < 2: return [query(ps, req, [e]) for e in ens]
    out = [query(ps, [r], [f"(or (= {x} {y}) (and (fp.isZero {x}) (fp.isZero {y})))"]) for (x, y), r in zip(pairs, req)]
    for mask in range(1 << len(pairs)):
        same = [(y, x) for k, (x, y) in enumerate(pairs) if mask >> k & 1]
        zero = [f"(and (fp.isZero {x}) (fp.isZero {y}))" for k, (x, y) in enumerate(pairs) if not mask >> k & 1]
        out += [query(ps, req + zero, [e], same) for e in ens]
    return out
def solve(a, limit, d):
    n, ps, req, ens, text = a
    worst = ("unsat", "z3")
    for k, q in enumerate(queries(n, ps, req, ens, text)):
        f = f"{d}/{n}.{k}.smt2"; open(f, "w").write(q)
        r, by = "unknown", ""
        for name, cmd in (("z3", ["z3-new", f"-T:{limit}", f]), ("cvc5", ["cvc5", "--fp-exp", f"--tlimit={limit*1000}", f])):
            try: o = subprocess.run(cmd, capture_output=True, text=True, timeout=limit + 30).stdout
            except (subprocess.TimeoutExpired, OSError): continue
            w = o.split("\n")[0].strip()
            if w in ("sat", "unsat"): r, by = w, name; break
        if r == "sat": return n, r, by
        if r != "unsat": worst = (r, "")
        elif worst[0] == "unsat": worst = (r, by)
    return n, *worst
class Coq:
    """a Verus axiom's text as a Rocq statement; `b` boolean float predicate, `p` proposition, `r` real, `f` float"""
    def __init__(s, text):
        s.t = re.findall(r"\d+\.\d+f32|\d+real|[A-Za-z_]\w*|==|<=|>=|&&|\|\||[-+*/<>!(),]", text); s.i = 0
    def peek(s): return s.t[s.i] if s.i < len(s.t) else None
    def eat(s, x=None):
        v = s.peek()
        if x is not None and v != x: raise SyntaxError(f"expected {x}, found {v}: {s.t}")
        s.i += 1; return v
    @staticmethod
    def prop(x): return f"({x[1]} = true)" if x[0] == "b" else x[1]
    def clauses(s):
        out = []
        while s.peek() is not None:
            out.append(s.prop(s.bin(0)))
            if s.peek() == ",": s.eat()
        return out
    LEVELS = [["||"], ["&&"], ["==", "<=", ">=", "<", ">"], ["+", "-"], ["*", "/"]]
    def bin(s, k):
        if k == len(s.LEVELS): return s.un()
        l = s.bin(k + 1)
        while s.peek() in s.LEVELS[k]:
            o = s.eat(); r = s.bin(k + 1)
            if o in ("||", "&&"): l = ("p", f"({s.prop(l)} {dict([('||', chr(92) + '/'), ('&&', '/' + chr(92))])[o]} {s.prop(r)})")
            elif o == "==" and l[0] in "bp": l = ("p", f"({s.prop(l)} <-> {s.prop(r)})")
            elif o in ("==", "<=", ">=", "<", ">"): l = ("p", f"({l[1]} {'=' if o == '==' else o} {r[1]})%R")
            else: l = ("r", f"({l[1]} {o} {r[1]})%R")
        return l
    def un(s):
        if s.peek() == "!": s.eat(); return ("p", f"(~ {s.prop(s.un())})")
        if s.peek() == "-": s.eat(); return ("r", f"(- {s.un()[1]})%R")
        t = s.eat()
        if t == "(": e = s.bin(0); s.eat(")"); return e
        if t.endswith("real"): return ("r", t[:-4])
        if t.endswith("f32"): return ("f", {"0.0f32": "c0", "1.0f32": "c1"}[t])
        if s.peek() == "(":
            s.eat(); a = []
            while s.peek() != ")":
                a.append(s.bin(0)[1])
                if s.peek() == ",": s.eat()
            s.eat(")")
            return ({"rv": "r", "funit": "p", "fgt": "b", "feq": "b", "fnan": "b", "ffinite": "b"}.get(t, "f"), f"({t} {' '.join(a)})")
        return ("f", t)
def flocq(d):
    """{axiom: (statement, accepted)}"""
    st = {}
    for l in open(HERE + "/contracts/00_float.vrs"):
        if "// [flocq]" not in l: continue
        m = re.match(r"pub (?:broadcast )?axiom fn (\w+)\(([^)]*)\)(?: requires (.*?))? ensures (.*?);? // \[flocq\]", l.strip())
        if not m: raise SyntaxError(l)
        ps = [p.split(":")[0].strip() for p in m[2].split(",") if p.strip()]
        q = f"forall {' '.join(ps)} : f32, " if ps else ""
        st[m[1]] = q + "".join(r + " -> " for r in Coq(m[3] or "").clauses()) + " /\\ ".join(Coq(m[4].rstrip(";")).clauses())
    lib = d + "/float_facts.v"; open(lib, "w").write(open(HERE + "/contracts/float_facts.v").read())
    def run(f):
        try: return subprocess.run(["coqc", "-q", "-R", d, "FF", f], capture_output=True, text=True, timeout=100)
        except (subprocess.TimeoutExpired, OSError): return None
    r = run(lib)
    if r is None or r.returncode != 0: return {n: "unknown" for n in st}
    def one(x):
        n, s = x
        f = f"{d}/chk_{n}.v"
        open(f, "w").write(f"From Coq Require Import Reals.\nFrom FF Require Import float_facts.\nLemma checked : {s}.\nProof. exact {n[3:]}. Qed.\nPrint Assumptions checked.\n")
        r = run(f)
        ok = r is not None and r.returncode == 0
        # only the axioms of Rocq's own real numbers may be used
        used = re.findall(r"^([A-Za-z_][\w.]*)\s*:", r.stdout, re.M) if ok else []
        return n, "unsat" if ok and all(a.startswith("ClassicalDedekindReals.") or a in ("FunctionalExtensionality.functional_extensionality_dep", "Classical_Prop.classic") for a in used if a != "Axioms") else "unknown"
    with ThreadPoolExecutor(6) as ex: return dict(ex.map(one, st.items()))
def main():
    limit = int(sys.argv[sys.argv.index("--timeout") + 1]) if "--timeout" in sys.argv else 120
    d = HERE + "/build/fp"; os.makedirs(d, exist_ok=True)
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda a: solve(a, limit, d), load()))
    for n, r, by in rs: print(f"{n}: {dict(unsat='valid', sat='REFUTED').get(r, 'undecided, assumed')} {by}")
    fq = flocq(d)
    for n, r in fq.items(): print(f"{n}: {dict(unsat='valid').get(r, 'not proved, assumed')} flocq")
    json.dump({**{n: r for n, r, _ in rs}, **fq}, open(d + "/result.json", "w"))
    sys.exit(1 if any(r == "sat" for _, r, _ in rs) else 0)
if __name__ == "__main__": main()
