"""The jobs (symbolic runs) of every property, at two tiers.

A job is one line given to the harness: `key=value` pairs. Clause lengths, term depth and
vocabulary are its bounds; everything else in the step is symbolic."""


import re


def J(**k):
    return " ".join(f"{a}={b}" for a, b in k.items())


def taut(rule, ns, v="prop", d=3, args=(None,), **k):
    return [J(rule=rule, n=n, d=d, v=v, **({"args": a} if a else {}), **k) for n in ns for a in args]


def prem(rule, ps, ns, v="prop", d=3, args=(None,), **k):
    return [J(rule=rule, n=n, p=p, d=d, v=v, **({"args": a} if a else {}), **k) for p in ps for n in ns for a in args]


def c01(t):
    out = []
    ns = [0, 1, 2, 3, 4] if t else [1, 2, 3]
    for r in ["true", "false", "not_not", "xor_pos1", "xor_pos2", "xor_neg1", "xor_neg2", "implies_pos", "implies_neg1", "implies_neg2",
              "equiv_pos1", "equiv_pos2", "equiv_neg1", "equiv_neg2", "ite_pos1", "ite_pos2", "ite_neg1", "ite_neg2"]:
        out += taut(r, ns)
    out += taut("and_neg", ns + [4] if not t else ns + [5])
    out += taut("or_pos", ns + [4] if not t else ns + [5])
    for r in ["and_pos", "or_neg"]:
        out += taut(r, [1, 2, 3], args=("i", None, "i,i"), imax=5)
    ps = ["", "0", "1", "2", "1,1"]
    for r in ["xor1", "xor2", "not_xor1", "not_xor2", "implies", "not_implies1", "not_implies2", "equiv1", "equiv2", "not_equiv1", "not_equiv2",
              "ite1", "ite2", "not_ite1", "not_ite2", "not_and"]:
        out += prem(r, ps, ([0, 1, 2, 3] if t else [1, 2]) + ([3, 4] if r == "not_and" else []))
    for r in ["and", "not_or"]:
        out += prem(r, ps, [0, 1, 2], args=("i", None, "i,i"), imax=5)
    out += prem("and_intro", ["1", "1,1", "1,1,1", "2", "1,2", ""], [1, 2])
    out += taut("connective_def", [1, 2], d=5 if t else 4)
    out += taut("distinct_elim", [1, 2], v="propu")
    out += taut("nary_elim", [1, 2], v="propu")
    for s, l, r, ops in [("Bool", "B", "B", ["xor", "and", "or", "=>"]), ("Int", "I", "I", ["-", "+", "*", "div", "mod"]), ("Real", "R", "R", ["/"]), ("bv2", "b2", "b2", ["bvadd", "bvand", "bvor", "bvmul", "bvsub", "concat"]), ("Int", "I", "B", ["<", "<=", ">", ">="])]:
        s = "" if s == "Bool" else ":" + s
        for o in ops:
            if o == "concat": continue
            sig = f"{o}/{l}{l}>{r}" + (" and/BB>B" if r == "B" and o != "and" else "")
            out += [P("nary_elim", f"(= ({o} A{s} B{s} C{s}) D{s if r != 'B' else ''})", v="sig", sig=sig, d=2)]
            if t: out += [P("nary_elim", f"(= ({o} A{s} B{s} C{s} E{s}) D{s if r != 'B' else ''})", v="sig", sig=sig, d=3)]
    out += taut("ite_intro", [1], v="iteu", d=3 if t else 2, ms=3000)
    for c in ["(= D (ite A B C)) (= E (ite A B C))", "(= (ite A B C) D) (= (ite A B C) E)", "(= (ite A B C) D) (= E (ite A B C))", "(= D (ite A B C)) (= (ite A B C) E)", "(= D (ite A B C)) (= E (ite B A C))"]:
        out += [P("ite_intro", f"(= p:Bool (and p:Bool (ite F {c})))", v="sig", sig="not/B>B", d=2 if t else 1)]
        out += [P("ite_intro", f"(= p:Bool (and p:Bool (ite F {c.replace('(= D','(= D:U').replace('ite A B C', 'ite A x:U y:U').replace('E)', 'E:U)').replace('(= E', '(= E:U').replace(' D)', ' D:U)').replace('ite B A C', 'ite A y:U x:U')})))", v="sig", sig="not/B>B !f/U>U", d=1)]
    for c in ["(= A B)", "(and (= A B) (ite C (= D E) (= F G)))", "(and (= A B) C)"]:
        out += [P("ite_intro", f"(= (= A' B') {c})".replace("A'", "H").replace("B'", "I"), v="sig", sig="not/B>B", d=1)]
    return out


def P(rule, concl=None, v="prop", **k):
    """a step whose conclusion (and premises `prem`) are patterns"""
    def br(x):
        x = str(x)
        return "{" + x + "}" if " " in x or "=" in x else x
    if concl is not None:
        k["concl"] = concl
    return "rule=" + rule + " v=" + v + "".join(f" {a}={br(b)}" for a, b in k.items() if b is not None)


def c02(t):
    out = []
    d = 3 if t else 2
    for r in ["ite_simplify", "and_simplify", "or_simplify", "not_simplify", "implies_simplify", "equiv_simplify", "bool_simplify", "ac_simp"]:
        out += [P(r, d=2, n=1)]
        if t:
            out += [P(r, d=3, n=1)]
    out += [P("not_simplify", d=3, n=1), P("eq_simplify", v="propu", d=3, n=1), P("qnt_simplify", v="qb", d=3, n=1), P("qnt_simplify", v="qu", d=3, n=1)]
    for n in [0, 2]:
        for r in ["and_simplify", "ite_simplify", "ac_simp"]:
            out += [P(r, d=2, n=n)]
    # deeper shapes: complements, nested connectives, repeated subterms
    for r, o in [("and_simplify", "and"), ("or_simplify", "or")]:
        for args in ["A (not A)", "(not A) A", "A (not (not A))", "(not (not A)) (not A)", "A B A", "A B (not A)", "(not A) B A", "A (not B) B", "(not (not A)) B (not A)", "A true B", "false A B",
                     f"A ({o} B C)", f"({o} A B) (not A)", "A A", "A A A", "A B B", "A B C A", "true true", "(not true) A", "(not false) A"]:
            out += [P(r, f"(= ({o} {args}) D)", d=1 if not t else 2)]
        for args in ["A B C", "A B", "A B C D"]:
            out += [P(r, f"(= ({o} {args}) ({o} E F))", d=1, **({} if t or len(args) < 7 else {"v": "sig", "sig": "true/>B false/>B not/B>B"}))]
    for pat in ["(= (=> A B) C)", "(= (=> (not A) (not B)) C)", "(= (=> A (not A)) B)", "(= (=> (not A) A) B)", "(= (=> (=> A B) B) C)", "(= (=> A A) B)", "(= (=> false A) B)", "(= (=> A true) B)", "(= (=> A false) B)"]:
        out += [P("implies_simplify", pat, d=1 if not t else 2)]
    for pat in ["(= (= A B) C)", "(= (= (not A) (not B)) C)", "(= (= A (not A)) B)", "(= (= (not A) A) B)", "(= (= A true) C)", "(= (= false A) C)", "(= (= A A) C)", "(= (= A B) (and C D))", "(= (= A B) (and (=> A B) (=> C D)))"]:
        out += [P("equiv_simplify", pat, d=1 if not t else 2)]
    for pat in ["(= (not (=> A B)) C)", "(= (not (or A B)) C)", "(= (not (and A B)) C)", "(= (=> A (=> B C)) D)", "(= (=> (=> A B) B) C)", "(= (and A (=> A B)) C)", "(= (and (=> A B) A) C)", "(= (=> A (=> B C)) (=> (and D E) F))",
                "(= (not (=> A B)) (and C (not D)))", "(= (not (or A B)) (and (not C) (not D)))", "(= (not (and A B)) (or (not C) (not D)))", "(= (=> (=> A B) C) (or D E))", "(= (and A (=> B C)) (and D E))"]:
        out += [P("bool_simplify", pat, d=1 if not t else 2)]
    lits = "true/>B false/>B not/B>B"
    for pat in ["(= (ite A B C) D)", "(= (ite A (ite B C D) E) F)", "(= (ite A B (ite C D E)) F)", "(= (ite (not A) B C) D)", "(= (ite A true B) C)", "(= (ite A B false) C)", "(= (ite A false B) C)", "(= (ite A B true) C)", "(= (ite A true false) C)", "(= (ite A false true) C)",
                "(= (ite A B B) C)", "(= (ite true A B) C)", "(= (ite false A B) C)", "(= (ite A (ite A B C) D) (ite E F G))", "(= (ite A B (ite A C D)) (ite E F G))", "(= (ite (not A) B C) (ite D E F))"]:
        big = len(re.findall("[A-Z]", pat)) > 3
        out += [P("ite_simplify", pat, d=1 if not t else 2, **({"v": "sig", "sig": lits} if big else {}))]
        if t and big:
            out += [P("ite_simplify", pat, d=1)]
    out += [P("ite_simplify", "(= (ite A B:U C:U) D:U)", v="sig", sig=lits + " ite/BUU>U =/UU>B", d=2 if t else 1), P("ite_simplify", "(= (ite A (ite A B:U C:U) D:U) E:U)", v="propu", d=1), P("ite_simplify", "(= (ite A B:U (ite A C:U D:U)) E:U)", v="propu", d=1)]
    ac = "and/BB>B or/BB>B not/B>B true/>B false/>B"
    for pat in ["(= (and A B) (and C D))", "(= (and A B) C)", "(= (or A B) (or C D))", "(= (or A B) C)", "(= (and A B C) (and D E))", "(= (or A B C) (or D E))", "(= (and A B C) D)", "(= (or (or A B) (or C A)) (or B C A))", "(= (and (and A B) (and C A)) (and B C A))"]:
        o = "and" if "and" in pat else "or"
        out += [P("aci_simp", pat, v="sig", sig=ac, d=0), P("aci_simp", pat, v="sig", sig=f"{o}/BB>B not/B>B true/>B false/>B" if not t else ac, d=1)]
    for pat in ["(= (and A (and B C)) D)", "(= (or A (or B A)) D)", "(= (or (and A B) (and B A)) C)", "(= (and A (and B A) C) D)", "(= (not (and A A)) B)", "(= (and (or A A) B) C)", "(= (or (or A B) (or B A)) C)", "(= (and (and A A) A) B)"]:
        out += [P("ac_simp", pat, v="sig", sig=ac, d=1 if t or pat.count("A") + pat.count("B") + pat.count("C") < 5 else 0), P("aci_simp", pat, v="sig", sig=ac, d=0)]
    ar = "+/II>I */II>I"
    for o in "+*":
        for pat in ["(= (@ A:Int B:Int) (@ C:Int D:Int))", "(= (@ A:Int B:Int) C:Int)", "(= (@ A:Int B:Int C:Int) (@ D:Int E:Int))", "(= (@ A:Int (@ B:Int C:Int)) (@ D:Int E:Int F:Int))"]:
            out += [P("aci_simp", pat.replace("@", o), v="int", nodiv=1, d=0)]
    for o in ["bvadd", "bvmul", "bvand", "bvor", "bvxor"]:
        sg = f"{o}/b2b2>b2 bvnot/b2>b2"
        for pat in ["(= (@ A:bv2 B:bv2) (@ C:bv2 D:bv2))", "(= (@ A:bv2 B:bv2) C:bv2)", "(= (@ A:bv2 B:bv2 C:bv2) (@ D:bv2 E:bv2))", "(= (@ A:bv2 (@ B:bv2 #b00)) C:bv2)", "(= (@ A:bv2 #b11) B:bv2)", "(= (@ #b01 A:bv2) B:bv2)", "(= (@ A:bv2 #b00 B:bv2) (@ C:bv2 D:bv2))"]:
            out += [P("aci_simp", pat.replace("@", o), v="sig", sig=sg, d=0)]
    for pat in ["(= (concat A:bv1 B:bv1) (concat C:bv1 D:bv1))", "(= (concat A:bv1 (concat B:bv1 C:bv1)) (concat (concat D:bv1 E:bv1) F:bv1))", "(= (concat A:bv1 A:bv1) B:bv2)", "(= (concat A:bv1 B:bv1 C:bv1) (concat D:bv1 E:bv1 F:bv1))"]:
        out += [P("aci_simp", pat, v="sig", sig="concat/b1b1>b2 sort/>b3", d=0)]
    return out


def c03(t):
    out = []
    nn = "not/B>B"
    ns = [0, 1, 2] + ([3] if t else [])
    for p in ["1", "2", "1,1", "2,1", "0,1"] + (["1,1,1", "2,2"] if t else []):
        out += [P("resolution", v="not", p=p, n=n, d=2) for n in ns]
        out += [P("th_resolution", v="sig", sig=nn, p=p, n=n, d=1) for n in ns]
    for p in ["2,2", "1,1,1", "2,1,1", "2,2,1", "3,1", "1,2", "1,3", "1,1,1,1"] + (["2,2,2", "3,2,1", "3,3", "3,2", "2,2,1,1"] if t else []):
        out += [P("resolution", v="sig", sig=nn, p=p, n=n, d=d) for n in ns for d in ([1, 2] if t or (n == 0 and p in ("2,2", "2,1,1")) else [1])]
    for r, e in [("resolution", 0), ("resolution", 1), ("strict_resolution", 0), ("th_resolution", 1)]:
        k = {"elab": 1} if e else {}
        for p, a in [("1,1", "b,b"), ("2,1", "b,b"), ("1,1", "b"), ("2,1", ""), ("1", ""), ("1,1", "b,b,b")]:
            for n in [0, 1, 2]:
                out += [P(r, v="not", p=p, n=n, d=2 if t else 1, args=a or None, **k)]
        for p, a in [("2,1", "b,b"), ("2,2", "b,b"), ("1,1,1", "b,b,b,b"), ("2,1,1", "b,b,b,b"), ("2,2,1", "b,b,b,b"), ("3,2", "b,b")]:
            for n in ns:
                out += [P(r, v="sig", sig=nn + " true/>B", p=p, n=n, d=1, args=a, **k)]
        out += [P(r, v="sig", sig=nn + " true/>B", p="2,1", n=n, d=2, args="b,b", **k) for n in [0, 1, 2]]
    for r in ["contraction", "tautology", "reordering", "weakening", "or"]:
        for p in ["", "0", "1", "2", "3", "1,1"]:
            for n in [0, 1, 2, 3]:
                out += [P(r, v="not" if r != "or" else "prop", p=p, n=n, d=2)]
    out += [P("or", v="prop", prem="[(or A B C)]", n=n, d=2) for n in [2, 3, 4]]
    for n in [1, 2]:
        out += [P("shuffle", v="prop", d=2, n=n)]
    for o in ["and", "or", "xor", "=", "=>", "distinct"]:
        out += [P("shuffle", f"(= ({o} A B) ({o} C D))", v="prop", d=1), P("shuffle", f"(= ({o} A B C) ({o} D E F))", v="prop", d=0), P("shuffle", f"(= ({o} A B C) ({o} D E))", v="prop", d=0)]
    for o in ["+", "*", "-"]:
        out += [P("shuffle", f"(= ({o} A:Int B:Int) ({o} C:Int D:Int))", v="int", d=0, nodiv=1), P("shuffle", f"(= ({o} A:Int B:Int C:Int) ({o} D:Int E:Int F:Int))", v="int", d=0, nodiv=1)]
    out += [P("shuffle", "(= (div A:Int B:Int) (div C:Int D:Int))", v="int", d=0), P("shuffle", "(= (ite A B C) (ite D E F))", v="prop", d=0)]
    return out


def c04(t):
    out = []
    fu = "!f/U>U !g/UU>U !p/U>B !q/UU>B =/UU>B not/B>B"
    ho = "!f/U>U =/UU>B"
    for r in ["eq_reflexive", "eq_symmetric"]:
        out += [P(r, v="propu", d=3 if t else 2, n=n) for n in [1, 2]]
    for r in ["symm", "not_symm"]:
        for p in ["", "1", "2", "1,1"]:
            for n in [1, 2]:
                out += [P(r, v="propu", d=2, p=p, n=n)]
        out += [P(r, v="prop", d=3, p="1", n=1)]
    for e in [0, 1]:
        k = {"elab": 1} if e else {}
        out += [P("refl", v="propu", d=2, n=n, **k) for n in [1, 2]]
        out += [P("refl", "(= A B)", v="qu", d=2 if t else 1, ctx="[x:U:= f1:U]", **k)]
    for p in ["1", "1,1", "1,1,1", "2", "", "2,1"] + (["1,1,1,1"] if t else []):
        for n in [1, 2]:
            out += [P("trans", v="sig", sig="=/UU>B not/B>B", p=p, n=n, d=2)]
            out += [P("trans", v="sig", sig="=/BB>B not/B>B", p=p, n=n, d=2)]
    for n in [1, 2, 3, 4] + ([5] if t else []):
        out += [P("eq_transitive", v="sig", sig="=/UU>B not/B>B", d=2, n=n)]
        out += [P("eq_congruent", v="sig", sig="=/UU>B not/B>B !f/U>U !g/UU>U", d=3, n=n), P("eq_congruent_pred", v="sig", sig=fu, d=3, n=n)]
    out += [P("eq_transitive", v="sig", sig="=/UU>B =/UUU>B not/B>B", d=2, n=3)]
    for p in ["", "1", "1,1", "2", "1,1,1"]:
        for n in [1, 2]:
            out += [P("cong", v="sig", sig=fu, p=p, n=n, d=3, pd=1)]
            out += [P("ho_cong", v="sig", sig=fu, p=p, n=n, d=3, pd=1)]
    for o in ["and", "or", "xor", "=>", "=", "distinct"]:
        for p in ["1", "1,1", "1,1,1"]:
            out += [P("cong", f"(= ({o} A B) ({o} C D))", v="sig", sig="=/BB>B not/B>B", p=p, d=1)]
    out += [P("cong", f"(= ({o} A B C) ({o} D E F))", v="sig", sig="=/BB>B", p=p, d=0, pd=1) for o in ["and", "ite"] for p in ["1", "1,1", "1,1,1"]]
    out += [P("cong", "(= (ite A B:U C:U) (ite D E:U F:U))", v="sig", sig="=/BB>B =/UU>B", p=p, d=0, pd=1) for p in ["1", "1,1", "1,1,1"]]
    for o in ["+", "*", "-", "<", "<=", "div"]:
        out += [P("cong", f"(= ({o} A:Int B:Int) ({o} C:Int D:Int))", v="sig", sig="=/II>B", p=p, d=0, pd=1) for p in ["1", "1,1"]]
    return out


def c05(t):
    out = []
    for so, z in [("Int", "int"), ("Real", "real")]:
        c = "?c" if so == "Int" else "?c:Real"
        e = c.replace("c", "e", 1)
        one = "1" if so == "Int" else "1.0"
        x, y = "x:" + so, "y:" + so
        A, B, C, D = ("%s:%s" % (l, so) for l in "ABCD")
        n1 = P("la_rw_eq", v=z, n=1, d=3)
        out += [n1, P("la_rw_eq", f"(= (= {A} {B}) (and (<= {C} {D}) (<= E:{so} F:{so})))", v=z, d=1 if t else 0, nodiv=1)]
        out += [P("la_disequality", f"(or (= {A} {B}) (not (<= {C} {D})) (not (<= E:{so} F:{so})))", v=z, d=0), P("la_disequality", "(or A B C)", v=z, d=2, nodiv=1)]
        out += [P("la_totality", f"(or (<= {A} {B}) (<= {C} {D}))", v=z, d=1, nodiv=1), P("la_totality", "(or A B)", v=z, d=1 if not t else 2, nodiv=1)]
        out += [P("la_tautology", v=z, n=1, d=2 if t else 1), P("la_tautology", f"(or A B)", v="sig", sig=(f"<=/{z[0].upper()*2}>B >=/{z[0].upper()*2}>B not/B>B" + (f" -/{z[0].upper()}>{z[0].upper()}" if t else "")), d=2),
                P("la_tautology", f"(not (<= (- {x} {c}) {e}))", v=z)]
        ops = ["<", "<=", ">", ">="]
        for o in ops:
            nd = None if t or so == "Int" else 1
            out += [P("la_tautology", f"({o} {A} {B})", v=z, d=2 if t else 1, nodiv=nd), P("la_tautology", f"(not ({o} {A} {B}))", v=z, d=2 if t else 1, nodiv=nd)]
            for o2 in ops:
                for n1 in (0, 1):
                    for n2 in (0, 1):
                        l = f"({o} {A} {c})"
                        r = f"({o2} {B} {e})"
                        out += [P("la_tautology", "(or %s %s)" % (f"(not {l})" if n1 else l, f"(not {r})" if n2 else r), v=z, d=0, clo=-4, chi=4)]
        for r in ["la_mult_pos", "la_mult_neg"]:
            for o in ops + ["="]:
                for o2 in ops + ["="]:
                    for g in "><":
                        out += [P(r, f"(=> (and ({g} {A} {B}) ({o} {C} {D})) ({o2} (* E:{so} F:{so}) (* G:{so} H:{so})))", v=z, d=0, nodiv=1)]
        # simplification
        for o in ["+", "*"]:
            r = "sum_simplify" if o == "+" else "prod_simplify"
            for a in ["%s %s" % (A, B), "%s %s %s" % (A, B, C), f"{c} {A} {e}", f"{A} {c} {e}", f"{A} (- {c})", f"(- {c}) {e} {A}"] + ([f"{A} {B} {c} {e}"] if t else []):
                out += [P(r, f"(= ({o} {a}) {D})", v=z, d=1 if t else 0, nodiv=1), P(r, f"(= ({o} {a}) ({o} {D} E:{so}))", v=z, d=0, nodiv=1), P(r, f"(= ({o} {a}) ({o} ?u{c[2:]} {D} E:{so}))", v=z, d=0, nodiv=1)]
            out += [P(r, f"(= {D} ({o} {A} {c} {B}))", v=z, d=0, nodiv=1), P(r, f"(= ({o} {c} ({o} {e} {A})) {B})", v=z, d=1, nodiv=1)]
        dv = "div" if so == "Int" else "/"
        out += [P(r, f"(= ({o} {A} ({dv} {c} {e})) {B})", v=z, d=0) for r, o in [("sum_simplify", "+"), ("prod_simplify", "*")]]
        out += [P("minus_simplify", v=z, d=2, n=1), P("unary_minus_simplify", v=z, d=2 if not t else 3, n=1, nodiv=1), P("comp_simplify", v=z, d=2, n=1), P("div_simplify", f"(= ({dv} {A} {B}) {C})", v=z, d=1)]
        if so == "Int":
            out += [P("mod_simplify", v=z, d=2, n=1), P("mod_simplify", f"(= (mod ?c ?e) {C})", v=z, d=1, clo=-5, chi=5), P("mod_simplify", f"(= (mod (- ?c) ?e) {C})", v=z, d=1), P("mod_simplify", f"(= (mod (- ?c) (- ?e)) {C})", v=z, d=1), P("mod_simplify", f"(= (mod ?c (- ?e)) {C})", v=z, d=1)]
            out += [P("div_simplify", f"(= (div {a} {b}) {C})", v=z, d=1) for a in ["?c", "(- ?c)"] for b in ["?e", "(- ?e)", "2", "(- 3)", "(- 1)"]]
        else:
            out += [P("div_simplify", f"(= (/ {a} {b}) {C})", v=z, d=0) for a in ["6.0", "(- 6.0)", c] for b in ["2.0", "(- 4.0)", "1.0", "(- 1.0)"]]
        # polynomials
        for l, r in [(f"(+ {A} {B})", f"(+ {C} {D})"), (f"(* {A} {B})", f"(* {C} {D})"), (f"(- {A} {B})", f"(+ {C} {D})"), (f"(* (+ {A} {B}) {C})", f"(+ (* {D} E:{so}) (* F:{so} G:{so}))"), (f"(- {A})", f"(* (- {one}) {B})"),
                     (f"(* {c} (+ {x} {e}))", f"(+ (* {c} {A}) (* {c} {e}))"), (f"(- {A} {B} {C})", f"(- {D} (+ E:{so} F:{so}))"), (f"(+ {A} {B} {C})", f"(+ {D} E:{so} F:{so})")]:
            out += [P("poly_simp", f"(= {l} {r})", v=z, d=0, nodiv=1)]
        out += [P("poly_simp", f"(= {A} {B})", v=z, d=1, nodiv=1), P("poly_simp", f"(= ({dv} {A} {B}) {C})", v=z, d=0), P("poly_simp", f"(= ({dv} {x} {c}) (* {A} {B}))", v=z, d=0)]
        for o in ["=", "<", "<=", ">", ">="]:
            for o2 in ["=", "<", ">="] if not t else ["=", "<", "<=", ">", ">="]:
                out += [P("poly_simp_rel", f"(= ({o} {A} {B}) ({o2} {C} {D}))", v=z, prem=f"[(= (* ?c{c[2:]} (- {A} {B})) (* ?e{c[2:]} (- {C} {D})))]", d=0, nodiv=1)]
        out += [P("poly_simp_rel", f"(= (< {A} {B}) (< {C} {D}))", v=z, prem=f"[(= (* {c} (- E:{so} F:{so})) (* (- {e}) (- G:{so} H:{so})))]", d=0, nodiv=1), P("poly_simp_rel", v=z, n=1, p="1", d=3, pd=4, nodiv=1)]
        # la_generic: literals of the shapes `l op r`, multiplied by any coefficients
        def lit(n, o, l, r):
            return f"(not ({o} {l} {r}))" if n else f"({o} {l} {r})"
        lits = [(0, "<"), (0, "<="), (0, ">"), (0, ">="), (1, "<"), (1, "<="), (1, ">"), (1, ">="), (1, "=")]
        k1, k2 = ("?k" + c[2:]), ("?l" + c[2:])
        for a in lits:
            out += [P("la_generic", lit(*a, c, e), v=z, argp=k1), P("la_generic", lit(*a, f"(+ {A} {c})", f"(+ {B} {e})"), v=z, argp=k1, d=0)]
            for b in lits:
                out += [P("la_generic", lit(*a, x, c) + " " + lit(*b, x, e), v=z, argp=f"{one} {one}"), P("la_generic", lit(*a, x, c) + " " + lit(*b, e, x), v=z, argp=f"{one} {one}")]
                if t or (a[1] != "=" and b[0] == 0 and (so == "Real" or b[1] in ("<", ">="))):
                    out += [P("la_generic", lit(*a, f"(* {one.replace('1', '2')} {x})", c) + " " + lit(*b, f"(- {y} {x})", e) + " " + lit(1 - a[0], a[1] if a[1] != "=" else "<", y, "?g" + c[2:]), v=z, argp=f"{one} {one.replace('1', '2')} {one.replace('1', '2')}")]
        out += [P("la_generic", f"(< {x} {c}) (> {x} {e})", v=z, argp=f"{k1} {k2}", clo=-3, chi=3), P("la_generic", f"(<= (* {c} {x}) 0) (>= (* {e} {x}) {c})".replace("0", "0" if so == "Int" else "0.0"), v=z, argp=f"{k1} {k2}", clo=-3, chi=3)]
        if so == "Int":
            out += [P("la_generic", f"(not (= (* 2 {x}) (+ (* 2 {y}) ?c))) (< {x} {y})", v=z, argp="1 2"), P("la_generic", f"(<= (* 2 {x}) ?c) (>= (* 2 {x}) ?e)", v=z, argp="1 1"), P("la_generic", f"(< (* 6 {x}) (+ ?c (* 4 {y}))) (> (* 3 {x}) (+ (* 2 {y}) ?e))", v=z, argp="1 2"),
                    P("la_generic", f"(not (= (div ?c ?e) ?g))", v=z, argp="1"), P("la_generic", f"(<= (* 2 {x}) ?c) (>= (* 2 {x}) ?e)", v=z, argp="(div 1 2) (div 1 2)"), P("la_generic", f"(<= (* 3 {x}) ?c) (>= {x} ?e)", v=z, argp="(div 1 3) 1")]
        else:
            out += [P("la_generic", f"(<= (* 2.0 {x}) {c}) (>= (* 2.0 {x}) {e})", v=z, argp="1/2 1/2"), P("la_generic", f"(<= {x} 1/2) (>= {x} {e})", v=z, argp="1.0 1.0"), P("la_generic", f"(< {x} 1/2) (> {x} 1/3)", v=z, argp="1.0 1.0"), P("la_generic", f"(< (* 1/2 {x}) {c}) (> {x} {e})", v=z, argp="2.0 1.0")]
    return out


def c06(t):
    "binders and subproofs; names that start with $ are symbolic, so every coincidence of names is covered"
    out = []
    PU = "!p/U>B"
    PP = "!p/UU>B"
    D = 2 if t else 1

    def R(rule, concl, sig=PU, d=1, **k):
        "p of two arguments is q; the functions used are declared"
        two = lambda x: re.sub(r"\(p (?=(?:[^ ()]+|CH|\([^()]*\)) [^ ])", "(q ", x) if isinstance(x, str) else x
        concl, k = two(concl), {a: two(b) for a, b in k.items()}
        if "!p/UU>B" in sig:
            sig = sig.replace("!p/UU>B", "!q/UU>B")
        if k.get("prem") and not k["prem"].startswith("["):
            k["prem"] = " ".join(f"[{x.strip()}]" for x in k["prem"].split(";"))
        text = " ".join(str(x) for x in [concl] + list(k.values()))
        for f, d_ in [("p", "U>B"), ("q", "UU>B"), ("f", "U>U")]:
            if f"({f} " in text and f"!{f}/" not in sig:
                sig += f" !{f}/{d_}"
        if "$" in text:
            k["near"] = 1
        out.append(P(rule, concl, v="sig", sig=sig, d=d, **k))
    Q = ["forall", "exists"]
    # instantiation
    for sig in [PP + " !f/U>U", PU + " forall/UB>B and/BB>B"]:
        for b, a in [("$x:U", "$v:U"), ("$x:U", "(f $v:U)"), ("$x:U $y:U", "$v:U $w:U"), ("$x:U $y:U", "(f $y:U) $x:U"), ("$x:U", "$v:U $w:U"), ("$x:U $y:U", "$v:U"), ("$x:U", "$v:Bool")]:
            R("forall_inst", f"(or (not (forall [{b}] (p $d:U $e:U))) A)", sig=sig, argp=a)
            R("forall_inst", f"(or (not (forall [{b}] A)) (p $d:U $e:U))", sig=sig, argp=a)
    for q in Q + ["lambda"]:
        for a in ["$v:U", "(f $v:U)"]:
            if q != "lambda":
                R("forall_inst", f"(or (not (forall [$x:U] ({q} [$y:U] (p $d:U $e:U)))) ({q} [$z:U] (p $h:U $i:U)))", argp=a)
                R("forall_inst", f"(or (not (forall [$x:U] ({q} [$y:U] (p $d:U $e:U)))) ({q} [$z:U] (p $h:U (f $i:U))))", argp=a)
    R("forall_inst", "(or (not (forall [x:U] A)) B)", sig=PU + " forall/UB>B exists/UB>B not/B>B", d=2, argp="y:U")
    R("forall_inst", "(or (not (forall [x:U] A)) B)", sig="=/UU>B and/BB>B", d=2, argp="y:U")
    R("forall_inst", "(or (not (exists [x:U] A)) B)", sig=PU, d=1, argp="y:U")
    # miniscoping and joining
    for q in Q:
        for q2 in Q:
            for q3 in Q:
                R("qnt_join", f"(= ({q} [$x:U] ({q2} [$y:U] (p $d:U $e:U))) ({q3} [$z:U $w:U] (p $d:U $e:U)))", sig=PP)
        for l, r in [("$x:U $y:U", "$z:U"), ("$x:U", "$z:U $w:U"), ("$x:U $y:U", "$z:U $w:U $u:U"), ("$x:U", "$z:U"), ("$x:U", "$z:U $w:U $u:U")]:
            R("qnt_join", f"(= ({q} [{l}] ({q} [$a:U] (p $d:U $e:U))) ({q} [{r}] A))", sig=PP)
        for q2 in Q:
            for l, r in [("$x:U", None), ("$x:U $y:U", None), ("$x:U", "$z:U"), ("$x:U $y:U", "$z:U"), ("$x:U $y:U", "$z:U $w:U"), ("$x:U", "$z:U $w:U"), ("$x:U $y:Bool", "$x:Bool"), ("$x:U $y:U $z:U", "$w:U"), ("$x:U $y:U $z:U", "$w:U $v:U")]:
                rhs = f"({q2} [{r}] (p $d:U $e:U))" if r else "(p $d:U $e:U)"
                R("qnt_rm_unused", f"(= ({q} [{l}] (p $d:U $e:U)) {rhs})", sig=PP)
                if q == q2:
                    R("qnt_rm_unused", f"(= ({q} [{l}] (forall [$a:U] (p $d:U $e:U))) {'A' if not r else f'({q} [{r}] A)'})", sig=PP)
        R("qnt_rm_unused", f"(= ({q} [x:U] A) B)", sig=PU + " forall/UB>B exists/UB>B let/BU>B", d=2)
    for r in ["qnt_join", "qnt_rm_unused", "miniscope_distribute", "miniscope_split", "miniscope_ite", "bfun_elim", "qnt_cnf"]:
        R(r, "(= A B)", sig=PU + " forall/UB>B exists/UB>B and/BB>B or/BB>B", d=2)
        R(r, "(= A B) C", sig=PU + " forall/UB>B and/BB>B", d=2)
    for r, q, o in [("miniscope_distribute", "forall", "and"), ("miniscope_distribute", "exists", "or"), ("miniscope_distribute", "forall", "or"), ("miniscope_distribute", "exists", "and"),
                    ("miniscope_split", "forall", "or"), ("miniscope_split", "exists", "and"), ("miniscope_split", "forall", "and"), ("miniscope_split", "exists", "or")]:
        R(r, f"(= ({q} [$x:U] ({o} (p $a:U) (p $b:U))) ({o} ({q} [$y:U] (p $c:U)) ({q} [$z:U] (p $d:U))))")
        R(r, f"(= ({q} [$x:U $y:U] ({o} (p $a:U) (p $b:U))) ({o} ({q} [$z:U] (p $c:U)) ({q} [$w:U] (p $d:U))))")
        R(r, f"(= ({q} [$x:U $y:U] ({o} (p $a:U $b:U) (p $c:U $d:U))) ({o} (p $e:U $f:U) ({q} [$w:U] (p $g:U $h:U))))", sig=PP)
        R(r, f"(= ({q} [$x:U $y:U] ({o} (p $a:U) (p $b:U))) ({o} (p $c:U) (p $d:U)))")
        R(r, f"(= ({q} [$x:U] ({o} (p $a:U) (p $b:U) (p $c:U))) ({o} (p $d:U) (p $e:U) ({q} [$y:U] (p $f:U))))")
        R(r, f"(= ({q} [$x:U] ({o} (p $a:U) (p $b:U) (p $c:U))) ({o} (p $d:U) ({q} [$y:U] (p $f:U))))")
        R(r, f"(= ({q} [$x:U] ({o} (p $a:U) (p $b:U))) ({o} (p $d:U) (p $e:U) ({q} [$y:U] (p $f:U))))")
        R(r, f"(= ({q} [$x:U] ({o} A B)) C)", sig=f"{PU} forall/UB>B exists/UB>B and/BB>B or/BB>B", d=2)
        if t:
            R(r, f"(= ({q} [$x:U $y:U $z:U] ({o} (p $a:U $b:U) (p $c:U $d:U))) ({o} ({q} [$v:U] (p $e:U $f:U)) ({q} [$w:U $u:U] (p $g:U $h:U))))", sig=PP)
    for b, c, d in [("$x:U", "$y:U", "$z:U"), ("$x:U $v:U", "$y:U $w:U", "$z:U $u:U"), ("$x:U $v:U", "$y:U", "$z:U")]:
        for q in Q:
            R("miniscope_ite", f"(= ({q} [{b}] (ite (p $a:U) (p $b:U) (p $c:U))) (ite (p $d:U) ({q} [{c}] (p $e:U)) ({q} [{d}] (p $f:U))))")
    R("miniscope_ite", "(= (forall [x:U] (ite A B C)) (ite D (forall [x:U] E) (forall [x:U] F)))", sig=PU + " forall/UB>B not/B>B")
    # clause forms
    for l in ["(and (p $a:U) (p $b:U))", "(or (p $a:U) (and (p $b:U) (p $c:U)))", "(not (and (p $a:U) (p $b:U)))", "(not (or (p $a:U) (p $b:U)))", "(=> (p $a:U) (p $b:U))", "(not (=> (p $a:U) (p $b:U)))",
              "(= (p $a:U) (p $b:U))", "(not (= (p $a:U) (p $b:U)))", "(ite (p $a:U) (p $b:U) (p $c:U))", "(not (ite (p $a:U) (p $b:U) (p $c:U)))", "(not (not (p $a:U)))", "(= $a:U $b:U)", "(not (= $a:U $b:U))",
              "(xor (p $a:U) (p $b:U))", "(not (xor (p $a:U) (p $b:U)))", "(not (and (=> (p $a:U) (p $b:U)) (p $c:U)))", "(or (not (p $a:U)) (not (not (p $b:U))))", "(and (or (p $a:U) (p $b:U)) (not (p $c:U)))",
              "(or (and (p $a:U) (p $b:U)) (and (p $c:U) (p $d:U)))", "(and (p $a:U) (and (p $b:U) (p $c:U)))", "(=> (p $a:U) (p $b:U) (p $c:U))", "(distinct (p $a:U) (p $b:U))", "(= (p $a:U) (p $b:U) (p $c:U))"]:
        R("qnt_cnf", f"(or (not (forall [x:U] {l.replace('$a', 'x')})) (forall [x:U] A))", sig=PU + " not/B>B or/BB>B", d=2)
        if t:
            R("qnt_cnf", f"(or (not (forall [x:U] {l.replace('$a', 'x')})) (forall [x:U] A))", sig=PU + " not/B>B or/BB>B or/BBB>B xor/BB>B =/UU>B =/BB>B", d=3)
    for q in Q:
        for l, r in [(f"({q} [$y:U] (p $a:U $b:U))", "(p $c:U $d:U)"), (f"(or (p $a:U $b:U) ({q} [$y:U] (p $c:U $d:U)))", "(or (p $e:U $f:U) (p $g:U $h:U))"),
                     (f"(and (p $a:U $b:U) ({q} [$y:U] (p $c:U $d:U)))", "(p $e:U $f:U)"), (f"(not ({q} [$y:U] (p $a:U $b:U)))", "(not (p $c:U $d:U))"), (f"(not ({q} [$y:U] (p $a:U $b:U)))", "(exists [$z:U] (not (p $c:U $d:U)))"),
                     (f"({q} [$y:U] (p $a:U $b:U))", "(exists [$z:U] (p $c:U $d:U))"),
                     (f"(or ({q} [$y:U] (p $a:U $y:U)) (forall [$z:U] (p $z:U $b:U)))", "(or (p $e:U $f:U) (p $g:U $h:U))"),
                     (f"({q} [$y:U] (forall [$z:U] (p $a:U $b:U)))", "(p $c:U $d:U)"), (f"({q} [$y:U] (exists [$z:U] (p $a:U $b:U)))", "(exists [$v:U] (p $c:U $d:U))")]:
            for x, z in [("$x:U", "$w:U"), ("$x:U", "$w:U $u:U"), ("$x:U $x':U", "$w:U")]:
                if t or "or" not in l or z == "$w:U $u:U":
                    R("qnt_cnf", f"(or (not (forall [{x}] {l})) (forall [{z}] {r}))", sig=PP)
    R("qnt_cnf", "(or (not (forall [x:U] A)) (forall [x:U] B))", sig=PU + " forall/UB>B exists/UB>B not/B>B", d=2)
    R("qnt_cnf", "(or (not (exists [x:U] A)) (forall [x:U] B))", sig=PU, d=1)
    R("qnt_cnf", "(or (not (forall [x:U] A)) (exists [x:U] B))", sig=PU, d=1)
    # closing rules
    for q in Q + ["choice", "lambda"]:
        T = {"forall": "", "exists": "", "choice": "", "lambda": ""}[q]
        for ctx in ["y:U x:U:= $v:U", "y:U z:U x:U:= $v:U", "x:U:= $v:U", "y:U x:U:= (f $v:U)", "y:U", "x:U", "y:U x:U:= $v:U y:U:= $w:U", "y:U z:U x:U:= $v:U z:U:= $w:U", "y:U x:U:= $v:U x:U:= $w:U"]:
            for l, r in [("$a:U", "$b:U")] + ([("$a:U $b:U", "$c:U $d:U"), ("$a:U $b:U", "$c:U"), ("$a:U", "$b:U $c:U")] if q != "choice" else []):
                if q == "lambda" and len(l) != len(r):
                    continue
                b1, b2 = ("(p $d:U)", "(p $e:U)") if t or len(l) < 6 else ("(p y:U $d:U)", "(p x:U $e:U)")
                if len(l) < 6 and len(r) < 6:
                    b1, b2 = "(p $d:U $h:U)", "(p $e:U $i:U)"
                    if q in ("forall", "exists", "choice", "lambda") and not t:
                        b1, b2 = "(p $d:U)", "(p $e:U)"
                R("bind", f"(= ({q} [{l}] {b1}) ({q} [{r}] {b2}))", sig=PP, ctx=f"[{ctx}]", prev=f"(= {b1} {b2})")
    R("bind", "(= (forall [$a:U] (p $d:U $h:U)) (forall [$b:U] (p $e:U $i:U)))", sig=PP, ctx="[y:U x:U:= $v:U]", prev="(= (p $d:U $h:U) (p $e:U $i:U))")
    R("bind", "(= (forall [$a:U] A) (forall [$b:U] B))", sig=PU + " forall/UB>B", d=D, ctx="[y:U x:U:= y:U]", prev="(= C E)")
    R("bind", "(= A B)", sig=PU + " forall/UB>B exists/UB>B", d=2, ctx="[y:U x:U:= y:U]", prev="(= C E)")
    for q in Q:
        for q2 in Q:
            R("bind", f"(= ({q} [$a:U] (p $d:U)) ({q2} [$b:U] (p $e:U)))", ctx="[y:U x:U:= y:U]", prev="(= (p $d:U) (p $e:U))")
    for outer in ["[x:U:= $u:U] ", "[y:U:= $u:U] ", "[y:U] ", "[x:U] "]:
        R("bind", "(= (forall [$a:U] (p $d:U)) (forall [$b:U] (p $e:U)))", ctx=outer + "[y:U x:U:= $v:U]", prev="(= (p $d:U) (p $e:U))")
    R("bind", "(= (forall [$a:U $b:Bool] (p $d:U)) (forall [$e:U $g:Bool] (p $h:U)))", ctx="[y:U y:Bool x:U:= y:U x:Bool:= y:Bool]", prev="(= (p $d:U) (p $h:U))")
    # let
    for ctx in ["x:U y:U a:U:= $v:U b:U:= $w:U", "x:U a:U:= $v:U", "a:U:= $v:U x:U", "a:U:= $v:U b:U:= (f $w:U)", "a:U:= (f $v:U)", "a:U:= $v:U a:U:= $w:U", "x:U"]:
        for l in ["$a $s:U", "$a $s:U $b $t:U"]:
            for pr in ["", "(= $e:U $g:U)", "(= $e:U $g:U) ; (= $h:U $i:U)"]:
                if len(pr) > 20 and len(l) < 10 or pr == "" and len(l) > 10 and not t:
                    continue
                ll = l
                if "(f" in ctx:
                    pr = pr.replace("$g:U", "(f $g:U)")
                R("let", f"(= (let [{ll}] (p $c:U)) (p $d:U))", ctx=f"[{ctx}]", prev="(= (p $c:U) (p $d:U))", prem=pr or None)
    R("let", "(= A B)", sig=PU + " let/BU>B", d=2, ctx="[x:U v1:U:= x:U]", prev="(= C D)", prem="(= E:U F:U)")
    R("let", "(= (let [a $s:U] A) B)", sig=PU, d=2, ctx="[x:U a:U:= x:U]", prev="(= C D)", prem="(= x:U y:U)")
    for b in ["$a $s:U", "$a $s:U $b $t:U"]:
        for b2 in ["$e $u:U", "$e $u:U $g $v:U"]:
            for ctx in [None, "[x:U]"]:
                for pr in [None, "(= $h:U $i:U)", "(= $h:U $i:U) ; (= $h:U $h:U)"]:
                    if t or (len(b) == len(b2)) and (ctx or len(b) < 10):
                        R("bind_let", f"(= (let [{b}] (p $c:U)) (let [{b2}] (p $d:U)))", ctx=ctx or "[y:U]", prev="(= (p $c:U) (p $d:U))", prem=pr)
    R("bind_let", "(= A B)", sig=PU + " let/BU>B", d=2, ctx="[x:U]", prev="(= C D)", prem="(= E:U F:U)")
    # one point
    for q, f in [("exists", "(and (= $a:U $b:U) (p $c:U))"), ("forall", "(=> (= $a:U $b:U) (p $c:U))"), ("forall", "(or (not (= $a:U $b:U)) (p $c:U))"), ("forall", "(and (= $a:U $b:U) (p $c:U))"), ("exists", "(or (= $a:U $b:U) (p $c:U))"),
                 ("exists", "(=> (= $a:U $b:U) (p $c:U))"), ("exists", "(not (or (not (= $a:U $b:U)) (p $c:U)))"), ("forall", "(not (and (= $a:U $b:U) (p $c:U)))"), ("exists", "(and (not (= $a:U $b:U)) (p $c:U))"),
                 ("exists", "(exists [$q:U] (and (= $a:U $b:U) (p $c:U)))"), ("forall", "(exists [$q:U] (=> (= $a:U $b:U) (p $c:U)))"), ("exists", "(and (= $a:U (f $b:U)) (p $c:U))"), ("forall", "(xor (= $a:U $b:U) (p $c:U))"),
                 ("exists", "(and (forall [$q:U] (= $a:U $b:U)) (p $c:U))"), ("exists", "(and (= $a:U $b:U) (= $h:U $i:U))")]:
        hard = f.count("$") > 3
        for ctx, l, r in [("x:U:= $v:U", "$k:U", None), ("y:U x:U:= $v:U", "$k:U $l:U", "$m:U"), ("x:U:= $v:U y:U:= $w:U", "x:U y:U", None), ("y:U x:U:= $v:U", "$k:U", None), ("x:U:= $v:U y:U", "x:U y:U", "$m:U")]:
            if hard and not t and (ctx not in ("x:U:= $v:U", "x:U:= $v:U y:U:= $w:U") or "$h" not in f and "w" in ctx):
                continue
            if "(f" in f:
                ctx = ctx.replace("$v:U", "(f $v:U)")
            g = f if "$q" in f or "$h" in f else f
            R("onepoint", f"(= ({q} [{l}] {f}) {'A' if not r else f'({q} [{r}] A)'})", sig=f"{PU}", d=1, ctx=f"[{ctx}]", prev=f"(= {f} A)")
            R("onepoint", f"(= ({q} [{l}] {f}) {'(p $z:U)' if not r else f'({q} [{r}] (p $z:U))'})", sig=f"{PU}", d=1, ctx=f"[{ctx}]", prev=f"(= {f} (p $z:U))")
    for o in ["[x:U:= $u:U] ", "[y:U:= $u:U] "]:
        R("onepoint", "(= (exists [$k:U] (and (= $a:U $b:U) (p $c:U))) (p $z:U))", ctx=o + "[x:U:= $v:U]", prev="(= (and (= $a:U $b:U) (p $c:U)) (p $z:U))")
    R("onepoint", "(= (exists [x:U] A) B)", sig="and/BB>B or/BB>B =/UU>B =>/BB>B not/B>B", d=2, ctx="[x:U:= y:U]", prev="(= A B)")
    R("onepoint", "(= (forall [x:U] A) B)", sig="and/BB>B or/BB>B =/UU>B =>/BB>B not/B>B", d=2, ctx="[x:U:= y:U]", prev="(= A B)")
    # skolemization
    for r, q, nn in [("sko_ex", "exists", "{}"), ("sko_forall", "forall", "(not {})"), ("sko_ex", "exists", "(not {})"), ("sko_forall", "forall", "{}"), ("sko_ex", "forall", "{}"), ("sko_forall", "exists", "(not {})")]:
        for ctx in ["x:U:= (choice [$k:U] N(p $a:U $b:U)N)", "y:U x:U:= (choice [$k:U] N(p $a:U $b:U)N)", "x:U:= (choice [$k:U] N(p $a:U $b:U)N) y:U:= $v:U"]:
            c = re.sub("N(.*?)N", lambda m: nn.format(m.group(1)), ctx)
            R(r, f"(= ({q} [$l:U] (p $c:U $d:U)) A)", sig=PP, ctx=f"[{c}]", prev="(= (p $c:U $d:U) A)")
            R(r, f"(= ({q} [$l:U] (p $c:U y:U)) (p $e:U $h:U))", sig=PP, ctx=f"[{c}]", prev="(= (p $c:U y:U) (p $e:U $h:U))")
            if nn == ("{}" if r == "sko_ex" else "(not {})"):
                for o in ["[x:U:= $u:U] ", "[y:U:= $u:U] "]:
                    R(r, f"(= ({q} [$l:U] (p $c:U $d:U)) A)", sig=PP, ctx=o + f"[{c}]", prev="(= (p $c:U $d:U) A)")
        ch = f"(choice [x:U] " + nn.format(f"({q} [y:U] (p x:U y:U))") + ")"
        for body in ["(p $a:U $b:U)"]:
            R(r, f"(= ({q} [x:U y:U] (p x:U y:U)) A)", sig=PP, ctx=f"[x:U:= {ch} y:U:= (choice [y:U] {nn.format(f'(q {ch} y:U)')})]", prev="(= (p x:U y:U) A)")
            R(r, f"(= ({q} [$k:U $l:U] (p x:U y:U)) A)", sig=PP, ctx=f"[x:U:= {ch} y:U:= (choice [y:U] {nn.format(f'(q {ch} y:U)')})]", prev="(= (p x:U y:U) A)")
            R(r, f"(= ({q} [x:U y:U] (p x:U y:U)) A)", sig=PP, ctx=f"[x:U:= (choice [x:U] {nn.format('(p x:U y:U)')}) y:U:= (choice [y:U] {nn.format('(p x:U y:U)')})]", prev="(= (p x:U y:U) A)")
    # subproof
    for n, dis in [(1, None), (2, "A"), (2, "A B"), (3, "A B"), (3, "A"), (0, None), (1, "A")]:
        for pv in ["C", "", "C D"]:
            R("subproof", None, sig="not/B>B", d=2 if n < 3 else 1, n=n, dis=dis, prev=pv)
    R("subproof", None, sig="not/B>B =/UU>B", d=2, n=2, dis="A", prev="B")
    R("subproof", None, sig="not/B>B and/BB>B", d=2, n=2, dis="A", prev="B")
    for ctx in ["[x:U:= $v:U]", "[x:U]", "[x:U y:U:= x:U]"]:
        R("subproof", "(p $a:U)", ctx=ctx, prev="(p $b:U)")
        R("subproof", "(not (p $a:U)) (p $b:U)", ctx=ctx, dis="(p $c:U)", prev="(p $d:U)")
        R("subproof", "(not A) B", ctx=ctx, dis="C", prev="E", sig=PU + " forall/UB>B")
    # reflexivity in contexts
    for ctx in ["[x:U:= $u:U]", "[x:U:= $u:U y:U:= $v:U]", "[x:U:= $u:U] [y:U:= $v:U]", "[y:U x:U:= $u:U] [z:U x:U:= $v:U]", "[x:U:= $u:U] [x:U:= $v:U]", "[x:U:= (f $u:U)] [y:U:= (f $v:U)]", "[x:U:= $u:U] [y:U]", "[x:U:= $u:U y:U]",
                "[x:U:= (f $u:U) y:U z:U:= $v:U]", "[x:U:= $u:U x:U:= $v:U]", "[x:U:= $u:U] [y:U] [z:U:= $v:U]"]:
        R("refl", "(= $a:U $b:U)", ctx=ctx)
        R("refl", "(= (p $a:U $b:U) (p $c:U $d:U))", ctx=ctx)
        R("refl", "(= (p $a:U) (p (f $b:U)))", ctx=ctx)
        R("refl", "(= (forall [$a:U] (p $b:U $c:U)) (forall [$d:U] (p $e:U $h:U)))", ctx=ctx)
    # functions of Boolean arguments
    for q in Q:
        for o in ["and", "or"]:
            R("bfun_elim", f"({o} A B)", sig="!g/B>B true/>B false/>B", prem=f"({q} [$y:Bool] (g $d:Bool))")
            R("bfun_elim", f"({o} A B)", sig="!g/B>B true/>B false/>B not/B>B", prem=f"({q} [$y:Bool] (not $d:Bool))")
            R("bfun_elim", f"({o} A B C D)", sig="true/>B false/>B not/B>B =>/BB>B", d=2, prem=f"({q} [y:Bool x:Bool] (=> x:Bool y:Bool))")
            R("bfun_elim", f"({q} [$x:U] ({o} A B))", sig="true/>B false/>B =>/BB>B", d=2, prem=f"({q} [$y:U $z:Bool] (=> $z:Bool (p $d:U)))")
            R("bfun_elim", f"({q} [$x:U] ({o} A B))", sig="true/>B false/>B =>/BB>B", d=2, prem=f"({q} [$z:Bool $y:U] (=> $z:Bool (p $d:U)))")
        R("bfun_elim", f"({q} [$x:Bool] (h $a:Bool $b:Bool))", sig="!h/BB>B", prem=f"({q} [$y:Bool] (h $c:Bool $d:Bool))")
    R("bfun_elim", "(ite A (g B) (g C))", sig="!g/B>B true/>B false/>B not/B>B", prem="(g D)")
    R("bfun_elim", "(ite A (ite B (h C D) (h E F)) (ite G (h H I) (h J K)))", sig="!h/BB>B true/>B false/>B", prem="(h L M)")
    R("bfun_elim", "A", sig="!g/B>B true/>B false/>B not/B>B and/BB>B", d=2, prem="B")
    R("bfun_elim", "A", sig=PU + " forall/UB>B exists/UB>B let/BU>B", d=2, prem="B")
    R("bfun_elim", "(let [$x A] (g B))", sig="!g/B>B true/>B", prem="(let [$y C] (g D))")
    return out


def c07(t):
    out = []
    W = [1, 2, 3, 4] + ([5, 6, 8] if t else [])

    def sig(*ws):
        return " ".join(f"sort/>b{w}" for w in ws)

    def term(l, w, mode):
        return f"{l}:bv{w}" if mode == "v" else "(@bbterm " + " ".join(f"{l}{i}" for i in range(w)) + ")" if mode == "b" else "#b" + "01101001"[:w]
    for w in W:
        s = sig(w, 1)
        for a in "vbc":
            out += [P("bitblast_not", f"(= (bvnot {term('A', w, a)}) R:bv{w})", v="sig", sig=s), P("bitblast_neg", f"(= (bvneg {term('A', w, a)}) R:bv{w})", v="sig", sig=s),
                    P("bitblast_var", f"(= {term('A', w, a)} R:bv{w})", v="sig", sig=s)]
            for b in "vbc":
                x, y = term("A", w, a), term("B", w, b)
                for r, o in [("and", "bvand"), ("or", "bvor"), ("xor", "bvxor"), ("xnor", "bvxnor"), ("add", "bvadd"), ("mult", "bvmul")]:
                    if r == "mult" and w > (5 if t else 4):
                        continue
                    out += [P("bitblast_" + r, f"(= ({o} {x} {y}) R:bv{w})", v="sig", sig=s)]
                    if a == b and r != "xnor" and w <= 3:
                        out += [P("bitblast_" + r, f"(= ({o} {x} {y} {term('C', w, a)}) R:bv{w})", v="sig", sig=s)]
                    if a == "v" and b == "v" and w <= 3:
                        out += [P("bitblast_" + r, f"(= ({o} {x} {x}) R:bv{w})", v="sig", sig=s)]
                for r, o in [("ult", "bvult"), ("slt", "bvslt")]:
                    out += [P("bitblast_" + r, f"(= ({o} {x} {y}) R)", v="sig", sig=s)]
                out += [P("bitblast_equal", f"(= (= {x} {y}) R)", v="sig", sig=s), P("bitblast_comp", f"(= (bvcomp {x} {y}) R:bv1)", v="sig", sig=s)]
        # constants: every value against every bit pattern
        bits = " ".join("ABCDEFGH"[i] for i in range(w))
        for k in sorted({0, 1, (1 << w) - 1, 1 << (w - 1), 5 % (1 << w), 6 % (1 << w)} if not t or w > 4 else range(1 << w)):
            out += [P("bitblast_const", f"(= #b{k:0{w}b} (@bbterm {bits}))", v="sig", sig="true/>B false/>B " + s, d=1)]
        for hi in range(w):
            for lo in range(hi + 1):
                n = hi - lo + 1
                if not t and w == 4 and n not in (1, 2, 4):
                    continue
                for a in "vb":
                    out += [P("bitblast_extract", f"(= (_extract {hi} {lo} {term('A', w, a)}) (@bbterm {' '.join('PQRSTUVW'[:n])}))", v="sig", sig=sig(w, n), d=1)]
        for i in [0, 1, 2] + ([3, 5] if t else []):
            for a in "vb":
                out += [P("bitblast_sign_extend", f"(= (_sign_extend {i} {term('A', w, a)}) R:bv{w + i})", v="sig", sig=sig(w, w + i))]
    for ws in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 1, 1), (1, 2, 1), (2, 1, 3)] + ([(4, 4), (1, 2, 3, 2)] if t else []):
        for m in ("v", "b", "vb", "bv"):
            args = " ".join(term("ABCD"[i], w, m[i % len(m)]) for i, w in enumerate(ws))
            n = sum(ws)
            out += [P("bitblast_concat", f"(= (concat {args}) (@bbterm {' '.join('P%d' % i for i in range(n))}))", v="sig", sig=sig(*sorted(set(ws) | {n})))]
    # arguments of any form: operators over operators
    ops = "bvnot/b2>b2 bvadd/b2b2>b2 @bbterm/BB>b2 not/B>B"
    for r, o in [("and", "bvand"), ("or", "bvor"), ("xor", "bvxor"), ("add", "bvadd"), ("mult", "bvmul")]:
        out += [P("bitblast_" + r, f"(= ({o} A:bv2 B:bv2) R:bv2)", v="sig", sig=ops, d=2)]
    return out


def c08(t):
    out = []
    W = [1, 2, 3] + ([4] if t else [])

    def bv(l, w, pb):
        return "(@pbbterm " + " ".join(f"{l.lower()}{i}:Int" for i in range(w)) + ")" if pb else f"{l}:bv{w}"

    def bit(l, w, i, pb):
        return f"{l.lower()}{i}:Int" if pb else f"(_@int_of {i} {l}:bv{w})"
    for w in W:
        s = f"sort/>I sort/>b{w}"
        for pb in (0, 1):
            x, y = bv("A", w, pb), bv("B", w, pb)
            # the sums as the rules write them, in every length, with any coefficients; each summand any bit of either side
            for k in sorted({w - 1, w, 1} - {0}):
                for j in sorted({w - 1, w} - {0}):
                    def sm(l, n, c, plain=False):
                        u = [bit(l, w, i, pb) if plain and i == 0 else f"(* ?{c}{i} {bit(l, w, i, pb)})" for i in range(n)]
                        return "(+ " + " ".join(u) + ")" if n > 1 else u[0]
                    for r, o in [("bveq", "="), ("bvult", "bvult"), ("bvugt", "bvugt"), ("bvuge", "bvuge"), ("bvule", "bvule")]:
                        for first in ("A", "B"):
                            f1, f2 = (x, y) if first == "A" else (y, x)
                            for pl in (False, True):
                                rel = "=" if o == "=" else ">="
                                out += [P("pbblast_" + r, f"(= ({o} {f1} {f2}) ({rel} (- {sm('A', k, 'm', pl)} {sm('B', j, 'n', pl)}) ?k))", v="sig", sig=s)]
                    if w > 1 or True:
                        for r in ["bvslt", "bvsgt", "bvsge", "bvsle"]:
                            for first in ("A", "B"):
                                f1, f2 = (x, y) if first == "A" else (y, x)
                                for si in sorted({w - 1, 0}):
                                    out += [P("pbblast_" + r, f"(= ({r} {f1} {f2}) (>= (+ (- {sm('A', k, 'm')} (* ?p {bit('A', w, si, pb)})) (- (* ?q {bit('B', w, w - 1, pb)}) {sm('B', j, 'n')})) ?k))", v="sig", sig=s)]
        # bits named in any order, sides in any order
        if w == 2:
            for r, o in [("bveq", "="), ("bvult", "bvult")]:
                rel = "=" if o == "=" else ">="
                out += [P("pbblast_" + r, f"(= ({o} A:bv2 B:bv2) ({rel} (- (+ (* ?m C:Int) (* ?n D:Int)) (+ (* ?p E:Int) (* ?q F:Int))) ?k))", v="sig", sig="sort/>I sort/>b2 _@int_of/0b2>I _@int_of/1b2>I", d=2 if t else 1)]
        bits = " ".join("PQRS"[i] + ":Int" for i in range(w))
        io = " ".join(f"_@int_of/{i}b{w}>I" for i in range(w))
        out += [P("pbblast_pbbvar", f"(= A:bv{w} (@pbbterm {bits}))", v="sig", sig=s + " " + io, d=1)]
        for k in range(1 << w):
            out += [P("pbblast_pbbconst", f"(= #b{k:0{w}b} (@pbbterm {' '.join('?' + 'pqrs'[i] for i in range(w))}))", v="sig", sig=s, pbc=1, chi=1 << 33)]
    for w in [1, 2]:
        s = f"sort/>I sort/>b{w}"
        for pb in (0, 1):
            for r, lits in [("bvxor", ["(>= (+ {x} {y}) z)", "(>= (+ z {x}) {y})", "(>= (+ z {y}) {x})", "(>= 2 (+ z {x} {y}))"]), ("bvand", ["(>= {x} z)", "(>= {y} z)", "(>= (+ z 1) (+ {x} {y}))"])]:
                x, y = bv("A", w, pb), bv("B", w, pb)

                def ch(i, alt=None):
                    xs, ys = bit("A", w, i, pb), bit("B", w, i, pb)
                    u = [c.format(x=xs, y=ys) for c in lits]
                    if alt:
                        u = alt(u, xs, ys)
                    return "(choice [z:Int] (and " + " ".join(u) + "))"
                capt = dict(v="sig", sig=s + f" !f/I>b{w}", d=1)
                if not pb:
                    out += [P("pbblast_" + r, f"(= ({r} {x} {y}) (@pbbterm {' '.join(ch(i) for i in range(w))}))", **capt)]
                for alt in [None, lambda u, a, b: [re.sub(r"\b([12])\b(?![:\]])", "?k", q) if " (_@" not in q else q for q in u], lambda u, a, b: u[1:] + u[:1], lambda u, a, b: u[:-1], lambda u, a, b: [u[0], u[0]] + u[2:], lambda u, a, b: [q.replace(a, "\0").replace(b, a).replace("\0", b) for q in u]]:
                    out += [P("pbblast_" + r, f"(= ({r} {x} {y}) (@pbbterm {' '.join(ch(i, alt) for i in range(w))}))", v="sig", sig=s, zo=1 if pb else None)]
                out += [P("pbblast_" + r, f"(= ({r} {x} {y}) (@pbbterm {' '.join('(choice [z:Int] ' + ('(and P%d Q%d R%d S%d)' if r == 'bvxor' else '(and P%d Q%d R%d)') % ((i,) * (4 if r == 'bvxor' else 3)) + ')' for i in range(w))}))", v="sig", sig=s, zo=1 if pb else None)]
                xs, ys = ("x:Int", "y:Int") if pb else ("(_@int_of 0 A:bv%d)" % w, "(_@int_of 0 B:bv%d)" % w)
                c = "(choice [z:Int] (and " + " ".join(q.format(x=xs, y=ys) for q in lits) + "))"
                cl = "(and " + " ".join(q.format(x=xs, y=ys).replace("z", c) for q in lits) + ")"
                out += [P(f"pbblast_{r}_ith_bit", cl, v="sig", sig=s, argp=f"{xs} {ys}", zo=1 if pb else None)]
                if not pb:
                    out += [P(f"pbblast_{r}_ith_bit", cl, argp=f"{xs} {ys}", **capt)]
                out += [P(f"pbblast_{r}_ith_bit", "(and " + " ".join("ABCD"[i] for i in range(len(lits))) + ")", v="sig", sig=s + " >=/II>B +/II>I +/III>I", argp="x:Int y:Int", zo=1, d=1)]
    return out


def c09(t):
    return [j + " fmt=1" for j in c09_(t)]


def c09_(t):
    out = []
    lit = {"x": "x:Int", "X": "(- 1 x:Int)", "y": "y:Int", "Y": "(- 1 y:Int)", "z": "z:Int", "Z": "(- 1 z:Int)"}

    def ineq(ls, c, k, plain=()):
        if not ls:
            return f"(>= 0 ?{k})"
        u = [f"(* ?{c}{i} {lit[l]})" for i, l in enumerate(ls)]
        return f"(>= {'(+ ' + ' '.join(u) + ')' if len(u) > 1 else u[0]} ?{k})"
    b = 99 if t else 20
    K = dict(v="sig", sig="sort/>I", zo=1, clo=-b, chi=b)
    prem = ["", "x", "X", "xy", "xY", "xx", "xX", "xyz"]
    concl = ["", "x", "X", "xy", "xX", "yx", "xY", "xx", "xyz"] if t else ["", "x", "X", "xy", "xX", "xx", "xyz"]
    for p in prem:
        for c in concl:
            if set(c.lower()) - set(p.lower()) and len(c) > 2 or (set(p.lower()) - set(c.lower()) and len(p) - len(c) > 1):
                continue
            A, C = f"[{ineq(p, 'a', 'k')}]", ineq(c, "c", "m")
            out += [P("cp_multiplication", C, prem=A, argp="?s", **K), P("cp_saturation", C, prem=A, **K)]
            if t or len(p) + len(c) <= 2:
                out += [P("cp_division", C, prem=A, argp="?s", **K)]
            out += [P("cp_division", C, prem=A, argp=str(s), **K) for s in ([1, 2, 3, 5, 7] if t else [2, 3])]
    for p in ["x", "X", "xy", "xY", "xx"]:
        for q in ["x", "X", "y", "xy", "XY", "xX"]:
            for c in ["", "x", "y", "X", "xy", "xX", "xY"]:
                if set(c.lower()) - set((p + q).lower()):
                    continue
                if not t and len(c) > 1 and len(set((p + q).lower())) == 1 and c != "xX":
                    continue
                out += [P("cp_addition", ineq(c, "c", "m"), prem=f"[{ineq(p, 'a', 'k')}] [{ineq(q, 'b', 'l')}]", **K)]
    for r in ["cp_multiplication", "cp_division", "cp_saturation"]:
        a = dict(argp="?s") if r != "cp_saturation" else {}
        # premises that are not unit clauses
        out += [P(r, ineq("x", "c", "m"), prem=f"[{ineq('x', 'a', 'k')} {ineq('y', 'b', 'l')}]", **a, **K), P(r, ineq("x", "c", "m") + " " + ineq("y", "d", "n"), prem=f"[{ineq('x', 'a', 'k')}]", **a, **K), P(r, ineq("x", "c", "m"), prem="[]", **a, **K)]
    out += [P("cp_addition", ineq("x", "c", "m"), prem=f"[{ineq('x', 'a', 'k')} {ineq('x', 'b', 'l')}] [{ineq('x', 'e', 'n')}]", **K)]
    # the names of variables: `~x` next to x
    out += [P("cp_multiplication", "(>= (* ?c (- 1 x:Int)) ?m)", prem="[(>= (* ?a ~x:Int) ?k)]", argp="?s", **K), P("cp_addition", "(>= 0 ?m)", prem="[(>= (* ?a ~x:Int) ?k)] [(>= (* ?b x:Int) ?l)]", **K)]
    for a in ["A:Int", "(- 1 A:Int)", "(- ?u A:Int)", "(* ?u A:Int)", "B:Int"]:
        out += [P("cp_literal", f"(>= {c} ?m)", argp=a.replace("A:Int", "x:Int"), **K) for c in (["(+ ?a x:Int)", "(* ?a x:Int)", "(- x:Int ?a)", "?a", "(* ?a (- ?b x:Int))", "(- x:Int)"] if a in ("A:Int", "B:Int") else [])]
        for c in ["(>= A:Int ?m)", "(>= (* ?c A:Int) ?m)", "(>= (- ?c A:Int) ?m)", "(>= (* ?c (- ?d A:Int)) ?m)", "(>= (- A:Int) ?m)", "(> A:Int ?m)"]:
            out += [P("cp_literal", c, argp=a, d=0, **K)]
    out += [P("cp_literal", "", argp="A:Int", d=0, **K), P("cp_literal", "(>= A:Int ?m) B", argp="A:Int", d=0, **K)]
    N = dict(K, sig="+/II>I -/II>I -/I>I */II>I")
    for o in [">=", ">", "<=", "<", "="]:
        for l in (["(+ A:Int B:Int)", "A:Int"] if not t else ["(+ A:Int B:Int)", "(- A:Int B:Int)", "A:Int"]):
            for r in ["?k", "C:Int"] if t else ["?k"]:
                if o == "=" and (t or "+" not in l):
                    out += [P("cp_normalize", f"(= (= {l} {r}) (and (>= D:Int ?m) (>= E:Int ?n)))", d=1, **N)]
                if o != "=":
                    out += [P("cp_normalize", f"(= ({o} {l} {r}) (>= D:Int ?m))", d=1 if not t else 2, **N)]
        # written out
        for l, r in [("(* ?a x:Int)", "?k"), ("(+ (* ?a x:Int) (* ?b y:Int))", "?k"), ("(- (* ?a x:Int) (* ?b y:Int))", "(+ ?k x:Int)"), ("(+ (* ?a (- 1 x:Int)) y:Int ?b)", "?k"), ("(- x:Int)", "?k"), ("(- (- 1 x:Int))", "y:Int"), ("(* x:Int ?a)", "(- ?b y:Int ?k)"),
                     ("(- (* ?a x:Int))", "(- ?b)"), ("(* ?a ?b)", "x:Int"), ("(+ x:Int (* ?a ?b))", "?k"), ("(- 1 (+ x:Int y:Int))", "?k")]:
            n = min(2, len(re.findall(r"[xy]:Int", l + r)))
            for s in (["(* ?c x:Int)", "(* ?c (- 1 x:Int))", "x:Int", "(- 1 x:Int)"] if n == 1 else ["(+ (* ?c x:Int) (* ?d y:Int))", "(+ (* ?c x:Int) (* ?d (- 1 y:Int)))", "(+ (* ?c (- 1 x:Int)) (* ?d y:Int))", "(+ F:Int G:Int)"] + (["(+ F:Int G:Int H:Int)"] if len(re.findall(r"[xy]:Int", l + r)) > 2 else [])):
                if not t and o != ">=" and "F:Int" in s:
                    continue
                if o == "=":
                    out += [P("cp_normalize", f"(= (= {l} {r}) (and (>= {s} ?m) (>= H:Int ?n)))", d=1, **N)]
                else:
                    out += [P("cp_normalize", f"(= ({o} {l} {r}) (>= {s} ?m))", d=1, **N)]
    return out

def c11(t):
    out = []
    d = 2 if t else 1

    def atoms(x):
        """letters become distinct uninterpreted constants"""
        return re.sub(r"\b([A-F])(:[A-Za-z0-9]+)?\b(?!:)", lambda m: m.group(1).lower() + (m.group(2) or ":Bool"), x)

    def ok(rule, concl="", prem=None, v="prop", **k):
        k.setdefault("d", d)
        if rule.endswith("_simplify") or rule in ("ac_simp", "aci_simp") or k.pop("distinct", 0):
            concl = atoms(concl)
            prem = atoms(prem) if prem else prem
            if "argp" in k:
                k["argp"] = atoms(k["argp"])
        if prem is not None:
            k["prem"] = prem if prem.startswith("[") else f"[{prem}]"
        out.append(P(rule, concl, v=v, accept=1, **k))
    # tautologies
    ok("true", "true")
    ok("false", "(not false)")
    ok("not_not", "(not (not (not A))) A")
    for n in range(1, 5 if t else 4):
        ls = "ABCDE"[:n]
        s = " ".join(ls)
        ns = " ".join(f"(not {x})" for x in ls)
        dd = d if n < 3 else 1 if n < 4 else 0
        for i in range(n):
            ok("and_pos", f"(not (and {s})) {ls[i]}", argp=str(i), d=dd)
            ok("or_neg", f"(or {s}) (not {ls[i]})", argp=str(i), d=dd)
            ok("and", ls[i], f"(and {s})", argp=str(i), d=dd)
            ok("not_or", f"(not {ls[i]})", f"(not (or {s}))", argp=str(i), d=dd)
        ok("and_neg", f"(and {s}) {ns}", d=dd)
        ok("or_pos", f"(not (or {s})) {s}", d=dd)
        ok("or", s, f"(or {s})", d=dd)
        ok("not_and", ns, f"(not (and {s}))", d=dd)
        ok("and_intro", f"(and {s})", " ".join(f"[{x}]" for x in ls), d=dd) if n > 1 else None
        ok("weakening", f"{s} E", f"[{s}]", d=dd)
        ok("weakening", f"{s} E F", f"[{s}]", d=dd)
        ok("contraction", s, f"[{s} {ls[0]}]", d=0)
        ok("contraction", s, f"[{ls[-1]} {s}]", d=0) if n == 1 else None
        ok("reordering", " ".join(reversed(ls)), f"[{s}]", d=dd)
    x2, e2, i3 = "A B", "A B", "A B C"
    for r, c in [("xor_pos1", "(not (xor A B)) A B"), ("xor_pos2", "(not (xor A B)) (not A) (not B)"), ("xor_neg1", "(xor A B) A (not B)"), ("xor_neg2", "(xor A B) (not A) B"),
                 ("implies_pos", "(not (=> A B)) (not A) B"), ("implies_neg1", "(=> A B) A"), ("implies_neg2", "(=> A B) (not B)"),
                 ("equiv_pos1", "(not (= A B)) A (not B)"), ("equiv_pos2", "(not (= A B)) (not A) B"), ("equiv_neg1", "(= A B) (not A) (not B)"), ("equiv_neg2", "(= A B) A B"),
                 ("ite_pos1", "(not (ite A B C)) A C"), ("ite_pos2", "(not (ite A B C)) (not A) B"), ("ite_neg1", "(ite A B C) A (not C)"), ("ite_neg2", "(ite A B C) (not A) (not B)"),
                 ("connective_def", "(= (xor A B) (or (and (not A) B) (and A (not B))))"), ("connective_def", "(= (= A B) (and (=> A B) (=> B A)))"), ("connective_def", "(= (ite A B C) (and (=> A B) (=> (not A) C)))"),
                 ("nary_elim", "(= (=> A B C) (=> A (=> B C)))"), ("nary_elim", "(= (= A B C) (and (= A B) (= B C)))"), ("nary_elim", "(= (=> A B C D) (=> A (=> B (=> C D))))"),
                 ("distinct_elim", "(= (distinct A B) (not (= A B)))"), ("distinct_elim", "(= (distinct A B C) false)"),
                 ("ite_intro", "(= A (and A (ite B (= C (ite B C D)) (= D (ite B C D)))))")]:
        ok(r, c, d=d if "C" not in c else 1 if "D" not in c else 0)
    ok("connective_def", "(= (forall [x:U] A) (not (exists [x:U] (not A))))", v="qu")
    ok("connective_def", "(= (exists [x:U] A) (not (forall [x:U] (not A))))", v="qu")
    U = "A:U B:U C:U D:U".split()
    ok("distinct_elim", "(= (distinct A:U B:U) (not (= A:U B:U)))", v="propu")
    ok("distinct_elim", "(= (distinct A:U B:U C:U) (and (not (= A:U B:U)) (not (= A:U C:U)) (not (= B:U C:U))))", v="propu", d=0)
    ok("distinct_elim", "(= (distinct A:U B:U C:U D:U) (and (not (= A:U B:U)) (not (= A:U C:U)) (not (= A:U D:U)) (not (= B:U C:U)) (not (= B:U D:U)) (not (= C:U D:U))))", v="propu", d=0)
    ok("nary_elim", "(= (= A:U B:U C:U) (and (= A:U B:U) (= B:U C:U)))", v="propu")
    ok("nary_elim", "(= (+ A:Int B:Int C:Int) (+ (+ A:Int B:Int) C:Int))", v="int", d=0)
    ok("nary_elim", "(= (- A:Int B:Int C:Int) (- (- A:Int B:Int) C:Int))", v="int", d=0)
    for o, s in [("xor", ""), ("*", ":Int"), ("div", ":Int"), ("/", ":Real"), ("bvadd", ":bv2"), ("bvmul", ":bv2"), ("bvand", ":bv2"), ("bvor", ":bv2")]:
        so = {"": "B", ":Int": "I", ":Real": "R", ":bv2": "b2"}[s]
        ok("nary_elim", f"(= ({o} A{s} B{s} C{s}) ({o} ({o} A{s} B{s}) C{s}))", v="sig", sig=f"{o}/{so}{so}>{so}", d=0)
    for o in ["<", "<=", ">", ">="]:
        ok("nary_elim", f"(= ({o} A:Int B:Int C:Int) (and ({o} A:Int B:Int) ({o} B:Int C:Int)))", v="int", d=0)
    for r, p, c in [("xor1", "(xor A B)", "A B"), ("xor2", "(xor A B)", "(not A) (not B)"), ("not_xor1", "(not (xor A B))", "A (not B)"), ("not_xor2", "(not (xor A B))", "(not A) B"), ("implies", "(=> A B)", "(not A) B"),
                    ("not_implies1", "(not (=> A B))", "A"), ("not_implies2", "(not (=> A B))", "(not B)"), ("equiv1", "(= A B)", "(not A) B"), ("equiv2", "(= A B)", "A (not B)"), ("not_equiv1", "(not (= A B))", "A B"), ("not_equiv2", "(not (= A B))", "(not A) (not B)"),
                    ("ite1", "(ite A B C)", "A C"), ("ite2", "(ite A B C)", "(not A) B"), ("not_ite1", "(not (ite A B C))", "A (not C)"), ("not_ite2", "(not (ite A B C))", "(not A) (not B)"),
                    ("symm", "(= A B)", "(= B A)"), ("not_symm", "(not (= A B))", "(not (= B A))")]:
        ok(r, c, p, d=d if "C" not in p else 1)
    # equality
    ok("eq_reflexive", "(= A A)")
    ok("eq_reflexive", "(= A:U A:U)", v="propu")
    ok("refl", "(= A A)")
    ok("refl", "(= A:U A:U)", v="propu")
    ok("refl", "(= A A)", elab=1)
    ok("eq_symmetric", "(= (= A B) (= B A))")
    ok("tautology", "true", "[A (not A)]")
    ok("tautology", "true", "[B A (not A)]", d=0)
    ok("tautology", "true", "[(not A) B A]", d=0)
    for so in ["", ":U"]:
        a, b, c, e = ("A" + so, "B" + so, "C" + so, "D" + so)
        v = "propu" if so else "prop"
        for f1 in (0, 1):
            for f2 in (0, 1):
                p, q = (f"(= {a} {b})", f"(= {b} {a})")[f1], (f"(= {b} {c})", f"(= {c} {b})")[f2]
                ok("trans", f"(= {a} {c})", f"[{p}] [{q}]", v=v, d=0)
                ok("eq_transitive", f"(not {p}) (not {q}) (= {a} {c})", v=v, d=0)
                ok("eq_transitive", f"(not {p}) (not {q}) (= {c} {a})", v=v, d=0)
        ok("trans", f"(= {a} {e})", f"[(= {a} {b})] [(= {b} {c})] [(= {c} {e})]", v=v, d=0)
        ok("eq_transitive", f"(not (= {a} {b})) (not (= {b} {c})) (not (= {c} {e})) (= {a} {e})", v=v, d=0)
        ok("eq_transitive", f"(not (= {b} {c})) (not (= {a} {b})) (= {a} {c})", v=v, d=0)
    S = dict(v="sig", sig="!f/U>U !g/UU>U !p/U>B !q/UU>B", d=1)
    for f1 in (0, 1):
        ab = ("(= A:U B:U)", "(= B:U A:U)")[f1]
        ok("cong", "(= (f A:U) (f B:U))", ab, **S)
        ok("cong", "(= (p A:U) (p B:U))", ab, **S)
        ok("ho_cong", "(= (f A:U) (f B:U))", ab, **S)
        ok("eq_congruent", f"(not {ab}) (= (f A:U) (f B:U))", **S)
        ok("eq_congruent_pred", f"(not {ab}) (not (p A:U)) (p B:U)", **S)
        ok("eq_congruent_pred", f"(not {ab}) (p A:U) (not (p B:U))", **S)
        ok("cong", "(= (not A) (not B))", ("(= A B)", "(= B A)")[f1])
        for o in ["and", "or", "=>", "xor", "="]:
            ok("cong", f"(= ({o} A C) ({o} B D))", f"[{('(= A B)', '(= B A)')[f1]}] [(= C D)]", d=0)
            ok("cong", f"(= ({o} A C) ({o} A D))", f"[{('(= C D)', '(= D C)')[f1]}]", d=0)
    S0 = dict(S, d=0)
    ok("cong", "(= (g A:U C:U) (g B:U D:U))", "[(= A:U B:U)] [(= C:U D:U)]", **S0)
    ok("cong", "(= (g A:U C:U) (g A:U D:U))", "[(= C:U D:U)]", **S0)
    ok("cong", "(= (g A:U C:U) (g B:U C:U))", "[(= A:U B:U)]", **S0)
    ok("cong", "(= (q A:U C:U) (q B:U D:U))", "[(= A:U B:U)] [(= D:U C:U)]", **S0)
    ok("cong", "(= (ite A B:U C:U) (ite D B:U C:U))", "(= A D)", **S0)
    ok("cong", "(= (ite A B:U C:U) (ite D E:U F:U))", "[(= A D)] [(= B:U E:U)] [(= C:U F:U)]", **S0)
    ok("cong", "(= (_extract 1 0 A:bv4) (_extract 1 0 B:bv4))", "(= A:bv4 B:bv4)", v="sig", sig="sort/>b4 sort/>b2", d=0)
    ok("eq_congruent", "(not (= A:U B:U)) (not (= C:U D:U)) (= (g A:U C:U) (g B:U D:U))", **S0)
    ok("eq_congruent_pred", "(not (= A:U B:U)) (not (= C:U D:U)) (not (q A:U C:U)) (q B:U D:U)", **S0)
    # resolution
    R = dict(v="sig", sig="not/B>B", d=1)
    R0 = dict(v="sig", sig="not/B>B", d=0)
    for r in ["resolution", "th_resolution"]:
        ok(r, "", "[A] [(not A)]", **R)
        ok(r, "", "[(not A)] [A]", **R)
        ok(r, "B", "[A B] [(not A)]", **R0)
        ok(r, "B", "[(not A)] [B A]", **R0)
        ok(r, "B C", "[A B] [(not A) C]", **R0)
        ok(r, "", "[A] [(not A) B] [(not B)]", **R0)
        ok(r, "C", "[A] [(not A) B] [(not B) C]", **R0)
        ok(r, "", "[(not A) (not B)] [A] [B]", **R0)
        ok(r, "C", "[(not A) (not B) C] [A] [B]", **R0)
        ok(r, "D", "[A] [B] [(not A) (not B) D]", **R0)
        ok(r, "", "[false A] [(not A)]", **R0)
        ok(r, "", "[(not true)]", **R0)
        ok(r, "", "[(not (not A))] [(not A)]", **R0)
        ok(r, "A", "[(not (not B)) A] [(not B)]", **R0)
        ok(r, "B", "[A B B] [(not A) B]", **R0)
        ok(r, "(not (not A))", "[A B] [(not B)]", **R0)
        ok(r, "(not A) B", "[(not A) C] [(not C) B]", **R0)
    for r, e in [("resolution", None), ("resolution", 1), ("strict_resolution", None)]:
        ok(r, "", "[A] [(not A)]", argp="A true", elab=e, **R)
        ok(r, "", "[(not A)] [A]", argp="A false", elab=e, **R)
        ok(r, "B C", "[A B] [(not A) C]", argp="A true", elab=e, distinct=1, **R0)
        ok(r, "B C", "[B (not A)] [A C]", argp="A false", elab=e, distinct=1, **R0)
        ok(r, "C", "[A] [(not A) B] [(not B) C]", argp="A true B true", elab=e, distinct=1, **R0)
        ok(r, "C", "[(not A) (not B) C] [A] [B]", argp="A false B false", elab=e, distinct=1, **R0)
    # simplification: the equations of the documentation
    for c in ["(ite true A B) A", "(ite false A B) B", "(ite A B B) B", "(ite A true false) A", "(ite A false true) (not A)", "(ite A (ite A B C) D) (ite A B D)", "(ite A B (ite A C D)) (ite A B D)"]:
        l, r = split2(c)
        ok("ite_simplify", f"(= {l} {r})", d=0)
    for c in ["(ite A true B) (or A B)", "(ite A B false) (and A B)", "(ite A false B) (and (not A) B)", "(ite A B true) (or (not A) B)", "(ite (not A) B C) (ite A C B)"]:
        l, r = split2(c)
        ok("ite_simplify", f"(= {l} {r})", v="sig", sig="", d=0)
    for c in ["(= A A) true", "(= ?a ?a) true", "(= 1 2) false", "(not (= 3 3)) false"]:
        l, r = split2(c)
        ok("eq_simplify", f"(= {l} {r})", v="prop" if "A" in c else "int", d=0)
    for o, T, F in [("and", "true", "false"), ("or", "false", "true")]:
        r = o + "_simplify"
        for c in [f"({o} {T} {T}) {T}", f"({o} A {T} B) ({o} A B)", f"({o} {T} A B) ({o} A B)", f"({o} A B A) ({o} A B)", f"({o} A A B) ({o} A B)", f"({o} A {F} B) {F}", f"({o} A (not A)) {F}", f"({o} (not A) B A) {F}", f"({o} A B (not (not A)) (not A)) {F}", f"({o} A {T}) A", f"({o} A A) A"]:
            l, rr = split2(c)
            ok(r, f"(= {l} {rr})", v="sig", sig="", d=0)
    for c in ["(not (not A)) A", "(not false) true", "(not true) false"]:
        l, r = split2(c)
        ok("not_simplify", f"(= {l} {r})", v="sig", sig="", d=0)
    for c in ["(=> (not A) (not B)) (=> B A)", "(=> false A) true", "(=> A true) true", "(=> true A) A", "(=> A false) (not A)", "(=> A A) true", "(=> (not A) A) A", "(=> A (not A)) (not A)", "(=> (=> A B) B) (or A B)"]:
        l, r = split2(c)
        ok("implies_simplify", f"(= {l} {r})", v="sig", sig="", d=0)
    for c in ["(= (not A) (not B)) (= A B)", "(= A A) true", "(= A (not A)) false", "(= (not A) A) false", "(= true A) A", "(= A true) A", "(= false A) (not A)", "(= A false) (not A)"]:
        l, r = split2(c)
        ok("equiv_simplify", f"(= {l} {r})", v="sig", sig="", d=0)
    for c in ["(not (=> A B)) (and A (not B))", "(not (or A B)) (and (not A) (not B))", "(not (and A B)) (or (not A) (not B))", "(=> A (=> B C)) (=> (and A B) C)", "(=> (=> A B) B) (or A B)", "(and A (=> A B)) (and A B)", "(and (=> A B) A) (and A B)"]:
        l, r = split2(c)
        ok("bool_simplify", f"(= {l} {r})", v="sig", sig="", d=0)
    for c in ["(and A (and B C)) (and A B C)", "(or (or A B) C) (or A B C)", "(and A A) A", "(or A (or A B)) (or A B)", "(not (and A (and B C))) (not (and A B C))"]:
        l, r = split2(c)
        ok("ac_simp", f"(= {l} {r})", v="sig", sig="", d=0)
        ok("aci_simp", f"(= {l} {r})", v="sig", sig="", d=0) if "not" not in c else None
    ok("aci_simp", "(= (and A true B) (and B A))", v="sig", sig="", d=0)
    ok("aci_simp", "(= (or A (or B false)) (or B A))", v="sig", sig="", d=0)
    ok("aci_simp", "(= (bvadd A:bv2 B:bv2) (bvadd B:bv2 A:bv2))", v="sig", sig="sort/>b2", d=0)
    ok("aci_simp", "(= (bvand A:bv2 #b11 B:bv2) (bvand B:bv2 A:bv2))", v="sig", sig="sort/>b2", d=0)
    ok("aci_simp", "(= (concat A:bv1 (concat B:bv1 C:bv1)) (concat A:bv1 B:bv1 C:bv1))", v="sig", sig="sort/>b1 sort/>b2 sort/>b3", d=0)
    for q in ["forall", "exists"]:
        for b in ["true", "false"]:
            ok("qnt_simplify", f"(= ({q} [x:U] {b}) {b})", v="qu")
            ok("qnt_simplify", f"(= ({q} [x:U y:U] {b}) {b})", v="qu")
    # arithmetic
    for so, z in [("Int", "int"), ("Real", "real")]:
        A, B, C, D = (f"{l}:{so}" for l in "ABCD")
        k = "" if so == "Int" else ":Real"
        ze, one = ("0", "1") if so == "Int" else ("0.0", "1.0")
        Z = dict(v=z, d=0, nodiv=1)
        ok("la_rw_eq", f"(= (= {A} {B}) (and (<= {A} {B}) (<= {B} {A})))", **Z)
        ok("la_disequality", f"(or (= {A} {B}) (not (<= {A} {B})) (not (<= {B} {A})))", **Z)
        ok("la_totality", f"(or (<= {A} {B}) (<= {B} {A}))", **Z)
        for o, n, o2 in [("<", 0, ""), (">=", 0, "")]:
            pass
        ok("sum_simplify", f"(= (+ {A} {ze} {B}) (+ {A} {B}))", v="sig", sig=f"sort/>{so[0]}", d=0)
        ok("sum_simplify", f"(= (+ {A} {ze}) {A})", v="sig", sig=f"sort/>{so[0]}", d=0)
        ok("sum_simplify", f"(= (+ {'2 3 4' if so == 'Int' else '2.0 3.0 4.0'}) {'9' if so == 'Int' else '9.0'})", **Z)
        ok("sum_simplify", f"(= (+ {'2' if so == 'Int' else '2.0'} {A} {'3' if so == 'Int' else '3.0'} {B}) (+ {'5' if so == 'Int' else '5.0'} {A} {B}))", v="sig", sig=f"sort/>{so[0]}", d=0)
        ok("prod_simplify", f"(= (* {A} {one} {B}) (* {A} {B}))", v="sig", sig=f"sort/>{so[0]}", d=0)
        ok("prod_simplify", f"(= (* {A} {ze} {B}) {ze})", v="sig", sig=f"sort/>{so[0]}", d=0)
        ok("prod_simplify", f"(= (* {'2' if so == 'Int' else '2.0'} {A} {'3' if so == 'Int' else '3.0'}) (* {'6' if so == 'Int' else '6.0'} {A}))", v="sig", sig=f"sort/>{so[0]}", d=0)
        ok("minus_simplify", f"(= (- {A} {A}) {ze})", v="sig", sig=f"sort/>{so[0]}", d=0)
        ok("minus_simplify", f"(= (- {A} {ze}) {A})", v="sig", sig=f"sort/>{so[0]}", d=0)
        ok("minus_simplify", f"(= (- {ze} {A}) (- {A}))", v="sig", sig=f"sort/>{so[0]}", d=0)
        ok("unary_minus_simplify", f"(= (- (- {A})) {A})", v="sig", sig=f"sort/>{so[0]}", d=0)
        ok("comp_simplify", f"(= (< {A} {A}) false)", **Z)
        ok("comp_simplify", f"(= (<= {A} {A}) true)", **Z)
        for l, r in [(f"(>= {A} {B})", f"(<= {B} {A})"), (f"(< {A} {B})", f"(not (<= {B} {A}))"), (f"(> {A} {B})", f"(not (<= {A} {B}))")]:
            ok("comp_simplify", f"(= {l} {r})", v="sig", sig=f"sort/>{so[0]}", d=0)
        ok("div_simplify", f"(= ({'div' if so == 'Int' else '/'} {A} {one}) {A})", v="sig", sig=f"sort/>{so[0]}", d=0)
        for o in ["<", "<=", "=", ">=", ">"]:
            M = dict(v="sig", sig=f"sort/>{so[0]}", d=0)
            fl = {"<": ">", "<=": ">=", "=": "=", ">=": "<=", ">": "<"}[o]
            ok("la_mult_pos", f"(=> (and (> {A} {ze}) ({o} {B} {C})) ({o} (* {A} {B}) (* {A} {C})))", **M)
            ok("la_mult_neg", f"(=> (and (< {A} {ze}) ({o} {B} {C})) ({fl} (* {A} {B}) (* {A} {C})))", **M)
            ok("la_generic", f"(not ({o} {A} {B})) ({o} {A} {B})" if o != "=" else f"(not (= {A} {B})) (<= {A} {B})", argp=f"{one} {one}" if o != "=" else f"(- {one}) {one}", **M)
            if o != "=":
                ok("la_generic", f"(not ({o} {A} {B})) (not ({o} {C} {D})) ({o} (+ {A} {C}) (+ {B} {D}))", argp=f"{one} {one} {one}", **M)
        M = dict(v="sig", sig=f"sort/>{so[0]}", d=0)
        two = "2" if so == "Int" else "2.0"
        ok("la_generic", f"(not (<= {A} {B})) (not (<= {B} {C})) (<= {A} {C})", argp=f"{one} {one} {one}", **M)
        ok("la_generic", f"(not (< {A} {B})) (not (<= {B} {C})) (< {A} {C})", argp=f"{one} {one} {one}", **M)
        ok("la_generic", f"(not (<= (* {two} {A}) {B})) (<= {A} (* 1/2 {B}))" if so == "Real" else f"(not (<= (* 2 {A}) (* 2 {B}))) (<= {A} {B})", argp=f"{one} {two}", **M)
        ok("poly_simp", f"(= (+ {A} {B}) (+ {B} {A}))", **M)
        ok("poly_simp", f"(= (* {A} {B}) (* {B} {A}))", **M)
        ok("poly_simp", f"(= (- {A} {A}) {ze})", **M)
        ok("poly_simp", f"(= (* {A} (+ {B} {C})) (+ (* {A} {B}) (* {A} {C})))", **M)
        ok("poly_simp", f"(= (- {A} {B}) (+ {A} (* (- {one}) {B})))", **M)
        ok("poly_simp", f"(= (+ {A} {A}) (* {two} {A}))", **M)
    ok("la_generic", "(not (< x:Int ?c)) (<= (+ x:Int 1) ?c)", argp="1 1", v="int", clo=-9, chi=9)
    ok("la_generic", "(not (> (* 2 x:Int) (* 2 ?c))) (>= x:Int (+ ?c 1))", argp="1 2", v="int", clo=-9, chi=9)
    # bit-blasting, as the documentation writes the circuits
    for w in [1, 2, 3] + ([4, 5] if t else []):
        K = dict(v="sig", sig=" ".join(f"sort/>b{i}" for i in sorted({1, 2, 3, w, w + 1, w + 2})), d=0)
        for m in "vb":
            def tm(l):
                return f"{l}:bv{w}" if m == "v" else "(@bbterm " + " ".join(f"{l}{i}" for i in range(w)) + ")"

            def bit(l, i):
                return f"(_@bit_of {i} {l}:bv{w})" if m == "v" else f"{l}{i}"
            x, y, z = tm("A"), tm("B"), tm("C")
            a_, b_, c_ = ([bit(l, i) for i in range(w)] for l in "ABC")

            def bb(u):
                return "(@bbterm " + " ".join(u) + ")"
            ok("bitblast_not", f"(= (bvnot {x}) {bb(f'(not {p})' for p in a_)})", **K)
            ok("bitblast_var", f"(= {x} {bb(a_)})", **K)
            for r, o in [("and", "and"), ("or", "or"), ("xor", "xor")]:
                ok("bitblast_" + r, f"(= (bv{r} {x} {y}) {bb(f'({o} {p} {q})' for p, q in zip(a_, b_))})", **K)
                ok("bitblast_" + r, f"(= (bv{r} {x} {y} {z}) {bb(f'({o} ({o} {p} {q}) {u})' for p, q, u in zip(a_, b_, c_))})", **K)
            ok("bitblast_xnor", f"(= (bvxnor {x} {y}) {bb(f'(= {p} {q})' for p, q in zip(a_, b_))})", **K)
            eqs = [f"(= {p} {q})" for p, q in zip(a_, b_)]
            conj = "(and " + " ".join(eqs) + ")" if w > 1 else eqs[0]
            ok("bitblast_equal", f"(= (= {x} {y}) {conj})", **K)
            ok("bitblast_comp", f"(= (bvcomp {x} {y}) {bb([conj])})", **K)

            def less(n):
                u = f"(and (not {a_[0]}) {b_[0]})"
                for i in range(1, n):
                    u = f"(or (and (= {a_[i]} {b_[i]}) {u}) (and (not {a_[i]}) {b_[i]}))"
                return u
            ok("bitblast_ult", f"(= (bvult {x} {y}) {less(w)})", **K)
            n = w - 1
            ok("bitblast_slt", f"(= (bvslt {x} {y}) " + (f"(or (and (= {a_[n]} {b_[n]}) {less(n)}) (and {a_[n]} (not {b_[n]}))))" if w > 1 else f"(and {a_[0]} (not {b_[0]})))"), **K)
            c = ["false"]
            for i in range(1, w):
                c.append(f"(or (and {a_[i-1]} {b_[i-1]}) (and (xor {a_[i-1]} {b_[i-1]}) {c[i-1]}))")
            ok("bitblast_add", f"(= (bvadd {x} {y}) {bb(f'(xor (xor {a_[i]} {b_[i]}) {c[i]})' for i in range(w))})", **K)
            c = ["true"]
            for i in range(1, w):
                c.append(f"(or (and (not {a_[i-1]}) false) (and (xor (not {a_[i-1]}) false) {c[i-1]}))")
            ok("bitblast_neg", f"(= (bvneg {x}) {bb(f'(xor (xor (not {a_[i]}) false) {c[i]})' for i in range(w))})", **K)
            for hi in range(w):
                for lo in range(hi + 1):
                    ok("bitblast_extract", f"(= (_extract {hi} {lo} {x}) {bb(a_[lo:hi + 1])})", **K)
            for i in [1, 2]:
                ok("bitblast_sign_extend", f"(= (_sign_extend {i} {x}) {bb(a_ + [a_[-1]] * i)})", **K)
            ok("bitblast_sign_extend", f"(= (_sign_extend 0 {x}) {x})", **K)
            if w <= 2:
                ok("bitblast_concat", f"(= (concat {x} P:bv1) {bb(['(_@bit_of 0 P:bv1)'] + a_)})", **K)
                ok("bitblast_concat", f"(= (concat P:bv1 {x} Q:bv1) {bb(['(_@bit_of 0 Q:bv1)'] + a_ + ['(_@bit_of 0 P:bv1)'])})", **dict(K, sig=K["sig"] + " sort/>b4"))
        for k in range(1 << w):
            ok("bitblast_const", f"(= #b{k:0{w}b} (@bbterm {' '.join('true' if k >> i & 1 else 'false' for i in range(w))}))", **K)
    # pseudo-Boolean blasting
    for w in [1, 2, 3]:
        K = dict(v="sig", sig=f"sort/>I sort/>b{w}", d=0)
        for m in (0, 1):
            x, y = ((f"(@pbbterm {' '.join(f'{l}{i}:Int' for i in range(w))})") if m else f"{l.upper()}:bv{w}" for l in "ab")

            def bit(l, i):
                return f"{l}{i}:Int" if m else f"(_@int_of {i} {l.upper()}:bv{w})"

            def sm(l, n, pl):
                u = [(bit(l, i) if pl and i == 0 else f"(* {1 << i} {bit(l, i)})") for i in range(n)]
                return "(+ " + " ".join(u) + ")" if n > 1 else u[0] if n else "0"
            for pl in (False, True):
                A, B = sm("a", w, pl), sm("b", w, pl)
                ok("pbblast_bveq", f"(= (= {x} {y}) (= (- {A} {B}) 0))", **K)
                ok("pbblast_bvult", f"(= (bvult {x} {y}) (>= (- {B} {A}) 1))", **K)
                ok("pbblast_bvugt", f"(= (bvugt {x} {y}) (>= (- {A} {B}) 1))", **K)
                ok("pbblast_bvuge", f"(= (bvuge {x} {y}) (>= (- {A} {B}) 0))", **K)
                ok("pbblast_bvule", f"(= (bvule {x} {y}) (>= (- {B} {A}) 0))", **K)
            ok("pbblast_pbbvar", f"(= {x} (@pbbterm {' '.join(bit('a', i) for i in range(w))}))", **K) if not m else None
        for k in range(1 << w):
            ok("pbblast_pbbconst", f"(= #b{k:0{w}b} (@pbbterm {' '.join(str(k >> i & 1) for i in range(w))}))", **K)
    # cutting planes
    K = dict(v="sig", sig="sort/>I", zo=1, d=0, distinct=1)
    F = dict(K, fmt=1)
    for X in ["x:Int", "(- 1 x:Int)"]:
        ok("cp_multiplication", f"(>= (* 6 {X}) 4)", f"[(>= (* 3 {X}) 2)]", argp="2", **F)
        ok("cp_saturation", f"(>= (* 2 {X}) 2)", f"[(>= (* 3 {X}) 2)]", **F)
        ok("cp_division", f"(>= (* 2 {X}) 2)", f"[(>= (* 3 {X}) 3)]", argp="2", **F)
        ok("cp_division", f"(>= (* 2 {X}) 1)", f"[(>= (* 4 {X}) 2)]", argp="2", **F)
        ok("cp_addition", f"(>= (+ (* 3 {X}) (* 2 y:Int)) 3)", f"[(>= (* 3 {X}) 2)] [(>= (* 2 y:Int) 1)]", **F)
        ok("cp_addition", f"(>= (* 5 {X}) 3)", f"[(>= (* 3 {X}) 2)] [(>= (* 2 {X}) 1)]", **F)
    ok("cp_addition", "(>= (* 1 x:Int) 1)", "[(>= (* 3 x:Int) 2)] [(>= (* 2 (- 1 x:Int)) 1)]", **F)
    for X in ["x:Int", "(- 1 x:Int)"]:
        ok("cp_literal", f"(>= {X} 0)", argp=X, **F)
        ok("cp_literal", f"(>= (* 1 {X}) 0)", argp=X, **F)
    # clause bookkeeping
    for u in ["A B", "A B C", "A (not B) A"]:
        r = " ".join(reversed(re.findall(r"\(not \w\)|\w", u)))
        ok("reordering", r, f"[{u}]", d=0)
        ok("reordering", u, f"[{u}]", d=0)
        ok("weakening", u + " D", f"[{u}]", d=0)
        ok("weakening", u, f"[{u}]", d=0)
    ok("weakening", "A B", "[]", d=0)
    for o in ["and", "or"]:
        ok("shuffle", f"(= ({o} A B C) ({o} C A B))", d=0)
        ok("shuffle", f"(= ({o} A B A) ({o} A A B))", d=0)
    ok("la_generic", "(<= ?c ?c)", argp="1", v="int")
    ok("la_generic", "(not (< ?c ?c))", argp="1", v="int")
    return out


def split2(c):
    """splits `(..) (..)` into its two terms"""
    depth = 0
    for i, ch in enumerate(c):
        if ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
        elif ch == " " and depth == 0:
            return c[:i], c[i + 1:]


def c14(t):
    """constant terms against the values the evaluator gives them: both sides range over every constant"""
    out = []

    def ev(l, r, **k):
        out.append(P("evaluate", f"(= {l} {r})", v="sig", d=0, **k))

    W = [1, 2, 3, 4] + ([5, 8] if t else [])
    for w in W:
        s = f"sort/>b{w}"
        a, b, c = (f"?{x}:bv{w}" for x in "abc")
        for o in ["bvand", "bvor", "bvxor", "bvadd", "bvmul", "bvsub", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod", "bvshl", "bvlshr", "bvashr", "bvnand", "bvnor", "bvxnor"]:
            if w > 4 and o in ("bvshl", "bvlshr", "bvashr") and w == 8:
                continue
            ev(f"({o} {a} {b})", f"?r:bv{w}", sig=s)
        for o in ["bvnot", "bvneg"]:
            ev(f"({o} {a})", f"?r:bv{w}", sig=s)
        for o in ["bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge", "=", "distinct"]:
            for v in ["true", "false"]:
                ev(f"({o} {a} {b})", v, sig=s)
        ev(f"(bvcomp {a} {b})", "?r:bv1", sig=s + " sort/>b1")
        if w <= 3:
            for o in ["bvand", "bvor", "bvxor", "bvadd", "bvmul"]:
                ev(f"({o} {a} {b} {c})", f"?r:bv{w}", sig=s)
            for o in ["=", "distinct"]:
                for v in ["true", "false"]:
                    ev(f"({o} {a} {b} {c})", v, sig=s)
            for w2 in [1, 2, 3]:
                ev(f"(concat {a} ?b:bv{w2})", f"?r:bv{w + w2}", sig=f"sort/>b{w} sort/>b{w2} sort/>b{w + w2}")
            ev(f"(concat {a} ?b:bv1 ?c:bv2)", f"?r:bv{w + 3}", sig=f"sort/>b{w} sort/>b1 sort/>b2 sort/>b{w + 3}")
        for i in range(w):
            for j in range(i + 1):
                ev(f"(_extract {i} {j} {a})", f"?r:bv{i - j + 1}", sig=f"{s} sort/>b{i - j + 1}")
            for v in ["true", "false"]:
                ev(f"(_@bit_of {i} {a})", v, sig=s)
            ev(f"(_@int_of {i} {a})", "?r", sig=s + " sort/>I")
        for i in [0, 1, 2, 3]:
            for o in ["zero_extend", "sign_extend"]:
                ev(f"(_{o} {i} {a})", f"?r:bv{w + i}", sig=f"{s} sort/>b{w + i}")
            if i:
                ev(f"(_repeat {i} {a})", f"?r:bv{w * i}", sig=f"{s} sort/>b{w * i}")
        for i in sorted({0, 1, 2, w - 1, w, w + 1, 2 * w + 1}):
            for o in ["rotate_left", "rotate_right"]:
                ev(f"(_{o} {i} {a})", f"?r:bv{w}", sig=s)
        ev(f"(ubv_to_int {a})", "?r", sig=s + " sort/>I")
        ev(f"(@bvsize {a})", "?r", sig=s + " sort/>I")
        for v in ["true", "false"]:
            ev(f"(< (sbv_to_int {a}) ?r)", v, sig=s + " sort/>I")
            ev(f"(< ?r (sbv_to_int {a}))", v, sig=s + " sort/>I")
            ev(f"(< (sbv_to_int {a}) (- ?r))", v, sig=s + " sort/>I")
        ev(f"(_int_to_bv {w} ?a)", f"?r:bv{w}", sig=s + " sort/>I", chi=1000)
        ev(f"(_int_to_bv {w} (- ?a))", f"?r:bv{w}", sig=s + " sort/>I", chi=1000)
        for k in range(1 << min(w, 3)):
            ev("(@bbterm " + " ".join("true" if k >> i & 1 else "false" for i in range(w)) + ")", f"?r:bv{w}", sig=s)
            ev("(@pbbterm " + " ".join(str(k >> i & 1) for i in range(w)) + ")", f"?r:bv{w}", sig=s + " sort/>I")
        ev(f"(ite (bvult {a} {b}) {a} {b})", f"?r:bv{w}", sig=s)
        ev(f"(bvneg (bvadd {a} (bvnot {b})))", f"?r:bv{w}", sig=s)
    # integers: numerals are not negative, (- n) is
    I, RR = dict(sig="sort/>I"), dict(sig="sort/>I sort/>R")
    for x in ["?a", "(- ?a)"]:
        for y in ["?b", "(- ?b)"]:
            for o in ["div", "mod", "+", "-"]:
                for v in ["true", "false"]:
                    for z in ["?r", "(- ?r)"]:
                        ev(f"(< ({o} {x} {y}) {z})", v, **I)
                        ev(f"(< {z} ({o} {x} {y}))", v, **I)
                ev(f"({o} {x} {y})", "?r", **I)
            for o in ["<", "<=", ">", ">=", "=", "distinct"]:
                for v in ["true", "false"]:
                    ev(f"({o} {x} {y})", v, **I)
            ev(f"(* {x} {y})", "?r", clo=0, chi=30, **I)
            xr, yr = x.replace("?a", "?a:Real"), y.replace("?b", "?b:Real")
            for v in ["true", "false"]:
                for o in ["<", "<=", ">", ">=", "=", "distinct"]:
                    ev(f"({o} {xr} {yr})", v, **RR)
                for n, d in [(x, y), (xr, yr), (x, yr)]:
                    for q in (["<", ">", "="] if t else ["<", "="]):
                        ev(f"({q} (/ {n} {d}) ?r:Real)", v, chi=12, **RR)
                for u in [f"(+ {xr} {yr})", f"(- {xr} {yr})", f"(+ {x} {yr})"]:
                    ev(f"(< {u} ?r:Real)", v, **RR)
                    ev(f"(<= ?r:Real {u})", v, **RR)
        ev(f"(abs {x})", "?r", **I)
        ev(f"(to_real {x})", "?r:Real", **RR)
        for k in ["2", "3", "4"]:
            for v in ["true", "false"]:
                xr = x.replace("?a", "?a:Real")
                for z in ["?r", "(- ?r)"]:
                    ev(f"(< (to_int (/ {xr} {k}.0)) {z})", v, **RR)
                    ev(f"(< {z} (to_int (/ {xr} {k}.0)))", v, **RR)
                ev(f"(is_int (/ {xr} {k}.0))", v, **RR)
        ev(f"(int.pow2 {x})", "?r", clo=0, chi=12, **I)
        ev(f"(int.log2 {x})", "?r", clo=0, chi=70, **I)
        for v in ["true", "false"]:
            ev(f"(int.ispow2 {x})", v, clo=0, chi=70, **I)
    for o in ["+", "-", "div"]:
        ev(f"({o} ?a ?b ?c)", "?r", chi=None if o != "div" else 20, **I)
    for o in ["<", "<=", ">", ">=", "=", "distinct"]:
        for v in ["true", "false"]:
            ev(f"({o} ?a ?b ?c)", v, **I)
    # Boolean operators over every mixture of constants and opaque terms
    B = dict(sig="true/>B false/>B")
    for n in [1, 2, 3] + ([4] if t else []):
        L = " ".join("ABCD"[:n])
        for o in ["and", "or", "xor", "=>", "=", "distinct"]:
            if n == 1 and o in ("=>", "=", "distinct") or o == "distinct" and n > 3:
                continue
            ev(f"({o} {L})", "R", **B)
    ev("(not A)", "R", **B)
    ev("(ite A B C)", "R", **B)
    ev("(ite A ?a ?b)", "?r", sig="true/>B false/>B sort/>I")
    ev("(and (or A B) (not C))", "(and R S)", **B)
    ev("(+ A:Int (+ ?a ?b))", "(+ A:Int ?r)", **I)
    ev("(forall [x:Int] (= (+ ?a ?b) ?c))", "R", sig="true/>B false/>B sort/>I forall/B:I>B")
    ev("(let [x ?a] (= x:Int ?b))", "R", sig="true/>B false/>B sort/>I")
    return out


def c12(t):
    out = []

    def pq(kind, terms, **k):
        k.setdefault("v", "sig")
        x = f"mode=polyeq kind={kind} t={{{terms}}}"
        for a, b in k.items():
            if b is not None:
                x += f" {a}={{{b}}}" if " " in str(b) else f" {a}={b}"
        out.append(x)
    D = 2 if t else 1
    KINDS = ["poly", "alpha", "exact", "nary", "nary0"]
    PROP = "not/B>B and/BB>B or/BB>B =>/BB>B =/BB>B =/UU>B ite/BBB>B true/>B"
    QU = "!p/U>B !q/UU>B and/BB>B =/UU>B"
    QB = QU + " forall/UB>B exists/UB>B"
    LET = QU + " let/BU>B"
    for k in KINDS:
        pq(k, "A B", sig="not/B>B and/BB>B =/BB>B =/UU>B", d=2)
        pq(k, "(= A B) (= C D)", sig=PROP, d=1)
        pq(k, "(and (= A:U B:U) C) (and (= D:U E:U) F)", sig="=/UU>B", d=1)
        pq(k, "(= (= A:U B:U) C) (= D (= E:U F:U))", sig="=/UU>B", d=D)
        pq(k, "(!f (= A B)) (!f (= C D))".replace("!f", "f"), sig="!f/B>B =/BB>B", d=1)
        pq(k, "A", sig=PROP, d=2)
        pq(k, "A", sig=QB + " let/BU>B", d=2)
        # numbers
        N = dict(sig="sort/>I sort/>R", clo=-9, chi=9)
        pq(k, "?m ?n:Real", **N)
        pq(k, "?m:Real ?n", **N)
        pq(k, "?m ?n", **N)
        for r in ["1/2", "-1/2", "3/2", "-3/2", "1/3", "7/2"]:
            pq(k, f"?m {r}", **N)
            pq(k, f"{r} ?m", **N)
            pq(k, f"?m:Real {r}", **N)
            pq(k, f"?m (- {r})", **N)
            pq(k, f"(- {r}) ?m", **N)
            pq(k, f"?m:Real (- {r})", **N)
            for z in ["", ":Real"]:
                pq(k, f"(/ ?m{z} ?n{z}) {r}", **N)
                pq(k, f"{r} (/ ?m{z} ?n{z})", **N)
                pq(k, f"(- (/ ?m{z} ?n{z})) {r}", **N)
                pq(k, f"{r} (- (/ ?m{z} ?n{z}))", **N)
                pq(k, f"(/ (- ?m{z}) ?n{z}) {r}", **N)
                pq(k, f"{r} (/ (- ?m{z}) ?n{z})", **N)
        for z in ["", ":Real"]:
            for y in ["", ":Real"]:
                for b in [f"(- ?n{y})", f"(/ ?n{y} ?k{y})", f"(- (/ ?n{y} ?k{y}))", f"(/ (- ?n{y}) ?k{y})", f"(/ ?n{y} (- ?k{y}))", f"(- ?n{y} ?k{y})", f"(- (- ?n{y}))"]:
                    pq(k, f"?m{z} {b}", **N)
                    pq(k, f"{b} ?m{z}", **N)
        pq(k, "(- A:Int) ?n", sig="-/I>I -/II>I +/II>I", d=1, clo=-9, chi=9)
        pq(k, "(/ A:Real B:Real) ?n:Real", sig="-/R>R //RR>R", d=1, clo=-9, chi=9)
        for z in ["", ":Real"]:
            pq(k, f"(/ ?a{z} ?b{z} ?c{z}) 1/2", **N)
            pq(k, f"1/2 (/ ?a{z} ?b{z} ?c{z})", **N)
            pq(k, f"(- (/ ?a{z} ?b{z} ?c{z})) -1/2", **N)
        pq(k, "(- A:Real) 1/2", sig="-/R>R //RR>R", d=1, clo=-9, chi=9)
        pq(k, "(_extract 1 0 A:bv3) (_extract 1 1 B:bv3)", d=1, sig="bvadd/b3b3>b3")
        pq(k, "(_extract 1 0 A:bv3) (_extract 1 0 B:bv3)", d=1, sig="bvadd/b3b3>b3")
        pq(k, "(_extract 1 0 A:bv3) (_zero_extend 1 B:bv1)", d=1, sig="bvadd/b3b3>b3 bvadd/b1b1>b1")
        pq(k, "#b01 ?a:bv2", sig="sort/>b2")
        pq(k, "#b01 #b001", sig="sort/>b2 sort/>b3")
        pq(k, '"a" "b"', sig="sort/>S")
        # binders, with every coincidence of names
        for b in ["forall", "exists", "choice"]:
            pq(k, f"({b} [$x:U] A) ({b} [$y:U] B)", sig=QU if b != "choice" else "!p/U>B !q/UU>B", d=D)
        pq(k, "(forall [$x:U] A) (exists [$y:U] B)", sig=QU, d=D)
        pq(k, "(forall [$x:U] A) (forall [$y:U $z:U] B)", sig=QU, d=1)
        pq(k, "(forall [$y:U $z:U] B) (forall [$x:U] A)", sig=QU, d=1)
        pq(k, "(forall [$x:U $y:U] A) (forall [$z:U $w:U] B)", sig=QU, d=1)
        pq(k, "(forall [$x:U] (exists [$y:U] A)) (forall [$z:U] (exists [$w:U] B))", sig="!q/UU>B", d=1)
        pq(k, "(forall [$x:U] (forall [$y:U] A)) (forall [$z:U $w:U] B)", sig="!q/UU>B", d=1)
        pq(k, "(and (forall [$x:U] A) B) (and (forall [$y:U] C) D)", sig="!q/UU>B", d=1)
        pq(k, "(and (forall [$x:U $y:U] A) (forall [$x:U $y:U] A)) (and (forall [$x:U $y:U] A) (forall [$y:U $x:U] A))", sig="!q/UU>B", d=1)
        pq(k, "(forall [$x:U] (and A (exists [$y:U] A))) (forall [$z:U] (and B (exists [$w:U] B)))", sig="!q/UU>B", d=1)
        pq(k, "(forall [$x:U $y:Bool] A) (forall [$z:Bool $w:U] B)", sig="!p/U>B and/BB>B", d=1)
        pq(k, "(let [$x A:U] B) (let [$y C:U] D)", sig="!q/UU>B !f/U>U", d=1)
        pq(k, "(let [$x A:U $y B:U] C) (let [$z D:U $w E:U] F)", sig="!q/UU>B", d=1)
        pq(k, "(let [$x A:U $y B:U] C) (let [$z D:U] F)", sig="!q/UU>B", d=1)
        pq(k, "(let [$z D:U] F) (let [$x A:U $y B:U] C)", sig="!q/UU>B", d=1)
        pq(k, "(let [$x A:U] (let [$y B:U] C)) (let [$z D:U] (let [$w E:U] F))", sig="!q/UU>B !f/U>U", d=1)
        pq(k, "(forall [$x:U] (let [$y A:U] B)) (forall [$z:U] (let [$w C:U] D))", sig="!q/UU>B", d=1)
        pq(k, "(let [$x A:U] B) (forall [$y:U] C)", sig="!q/UU>B", d=1)
        if t or k in ("alpha", "poly"):
            pq(k, "A B", sig="!q/UU>B forall/UB>B and/BB>B", d=3 if t else 2)
            pq(k, "A B", sig="!q/UU>B let/BU>B", d=2)
            pq(k, "(forall [$x:U] A) (forall [$y:U] B)", sig="!q/UU>B exists/UB>B =/UU>B", d=2)
    LONG = {"I": "Int", "R": "Real", "b2": "bv2"}
    for k in ["nary", "nary0"]:
        for o, S in [("and", "B"), ("or", "B"), ("xor", "B"), ("=>", "B"), ("=", "U"), ("=", "B"), ("distinct", "U"), ("<", "I"), ("<=", "I"), ("+", "I"), ("-", "I"), ("*", "I"), ("div", "I"), ("/", "R"), ("bvadd", "b2"), ("bvxnor", "b2"), ("concat", "b2"), ("bvand", "b2"), ("bvor", "b2"), ("bvxor", "b2"), ("bvmul", "b2")]:
            r = {"=": "B", "distinct": "B", "<": "B", "<=": "B"}.get(o, S)
            L = lambda *a: " ".join(x if S == "B" else f"{x}:{LONG.get(S, S)}" for x in a)  # noqa: E731
            sg = f"not/B>B and/BB>B or/BB>B {o}/{S}{S}>{r}" if o != "concat" else "not/B>B sort/>b2"
            for n, m in [(1, 1), (1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (3, 4)]:
                if (n == 1 or m == 1) and o in ("=", "distinct", "<", "<=", "=>", "div", "/", "*", "+"):
                    continue
                if not t and n + m > 5:
                    continue
                pq(k, f"({o} {L(*'ABCD'[:n])}) ({o} {L(*'EFGH'[:m])})", sig=sg, d=1)
            if r == S and o not in ("concat",):
                pq(k, f"({o} {L('A', 'B', 'C')}) ({o} ({o} {L('D', 'E')}) {L('F')})", sig="not/B>B sort/>" + S, d=1)
                pq(k, f"({o} {L('A', 'B', 'C')}) ({o} {L('D')} ({o} {L('E', 'F')}))", sig="not/B>B sort/>" + S, d=1)
                pq(k, f"({o} ({o} {L('D', 'E')}) {L('F')}) ({o} {L('A', 'B', 'C')})", sig="not/B>B sort/>" + S, d=1)
                pq(k, f"({o} {L('D')} ({o} {L('E', 'F')})) ({o} {L('A', 'B', 'C')})", sig="not/B>B sort/>" + S, d=1)
                pq(k, f"({o} {L('A', 'B', 'C', 'D')}) ({o} {L('D')} ({o} {L('E', 'F', 'G')}))", sig="not/B>B sort/>" + S, d=1)
                if o not in ("=>", "*", "+", "div", "/"):
                    pq(k, f"({o} {L('A')}) {L('B')}", sig=sg, d=1)
                    pq(k, f"{L('B')} ({o} {L('A')})", sig=sg, d=1)
                    pq(k, f"({o} {L('A')}) ({o} ({o} {L('A')}) {L('B')})", sig=sg, d=1)
            if r == "B":
                pq(k, f"({o} {L('A', 'B', 'C')}) (and ({o} {L('D', 'E')}) ({o} {L('F', 'G')}))", sig="not/B>B sort/>" + S, d=1)
                pq(k, f"(and ({o} {L('D', 'E')}) ({o} {L('F', 'G')})) ({o} {L('A', 'B', 'C')})", sig="not/B>B sort/>" + S, d=1)
                pq(k, f"({o} {L('A', 'B')}) (and F)", sig=f"{o}/{S}{S}>B", d=1)
                pq(k, f"({o} {L('A', 'B', 'C')}) (and F G)", sig=f"{o}/{S}{S}>B", d=1)
                pq(k, f"({o} {L('A', 'B', 'C')}) (or F G)", sig=f"{o}/{S}{S}>B", d=1)
                pq(k, f"({o} {L('A', 'B', 'C', 'D')}) (and F G H)", sig=f"{o}/{S}{S}>B", d=1)
        pq(k, "A B", sig="and/BB>B and/BBB>B =/UU>B =/UUU>B", d=2)
        pq(k, "A B", sig="and/BB>B and/BBB>B and/B>B", d=2)
        pq(k, "A:Int B:Int", sig="+/II>I +/III>I -/I>I -/II>I", d=2)
    # the comparison of string concatenations
    S = dict(sig="str.++/SS>S", d=1)
    atoms = ["A:String", "B:String", "?s:str1", "?t:str2", '""']
    lists = []
    for n in [1, 2, 3]:
        import itertools
        for c in itertools.product(range(len(atoms)), repeat=n):
            lists.append([atoms[i] for i in c])
    rng = [x for x in lists if len(x) > 1]
    side_b = ["?r:str3", "(str.++ ?v:str2 C:String)", "(str.++ C:String ?v:str2)", "(str.++ C:String D:String)", "(str.++ (str.++ C:String ?v:str1) D:String)", "(str.++ ?v:str1 (str.++ ?w:str1 C:String))", "(str.++ C:String (str.++ D:String E:String))"]
    for k, x in enumerate(rng):
        for m, y in enumerate(side_b):
            if t or (k * 7 + m) % 9 == 0:
                pq("concat", f"(str.++ {' '.join(x)}) {y}", **S)
    for o in ["str.<", "str.prefixof", "str.contains", "="]:
        pq("concat", f"({o} A:String B:String) (str.suffixof C:String D:String)", sig="str.++/SS>S", d=1)
        pq("concat", f"({o} (str.++ A:String ?s:str1) B:String) ({o} (str.++ C:String ?t:str1) D:String)", sig="sort/>S", d=1)
        pq("concat", f"({o} (str.++ A:String ?s:str1) B:String) ({o} C:String (str.++ D:String ?t:str1))", sig="sort/>S", d=1)
    pq("concat", "(f A:String B:String) (f C:String D:String)", sig="!f/SS>S str.++/SS>S", d=1)
    pq("concat", "(str.replace A:String B:String C:String) (str.replace_all D:String E:String F:String)", sig="sort/>S", d=1)
    pq("concat", '(str.++ "\u00e9" A:String) (str.++ "\u00e9" B:String)', sig="sort/>S", d=1)
    pq("concat", '(str.++ "\u00e9a" A:String) (str.++ "\u00e9" B:String)', sig="sort/>S", d=1)
    pq("concat", '(str.++ "\u00e9" A:String) (str.++ "\u00e8" B:String)', sig="sort/>S", d=1)
    pq("concat", "A:String B:String", sig="str.++/SS>S str.++/SSS>S", d=2)
    pq("concat", "A:String", sig="str.++/SS>S str.replace/SSS>S", d=2)
    return out


def c13(t):
    "substitution and free variables; every name is symbolic, so occurrences cover every coincidence of names"
    out = []
    SIG = "!p/UU>B !f/U>U !h/B>U !q/BB>B"

    def sb(terms, m):
        out.append(f"mode=subst v=sig sig={{{SIG}}} t={{{terms}}} m={{{m}}}")

    def fv(terms):
        out.append(f"mode=freevars v=sig sig={{{SIG}}} t={{{terms}}}")
    Q = ["forall", "exists", "lambda"] if t else ["forall", "lambda"]
    MAPS = ["$x:U $v:U", "$x:U (f $v:U)", "$x:U $v:U $y:U $w:U", "$x:U (f $v:U) $y:U (f $x:U)"]
    B2 = ["$b:U $c:U", "$b:U $b':U", "$b':U $b:U", "$b:U $b:Bool"]
    for q in Q:
        for m in MAPS:
            sb(f"({q} [$b:U] (p $d:U $e:U))", m)
            sb(f"({q} [$b:U] (p $b $b':U))", m)
        for b in B2[:3]:
            for m in MAPS[:2] + (MAPS[2:] if t else []):
                sb(f"({q} [{b}] (p $d:U $e:U))", m)
                sb(f"({q} [{b}] (p $b:U $b':U))", m)
                sb(f"({q} [{b}] (p $b':U $b'':U))", m)
    for b in ["$b:U $b':U $b'':U", "$b':U $b'':U $b:U", "$b':U $b:U $b:U", "$b'':U $b:U $b':U"]:
        for m in MAPS:
            sb(f"(forall [{b}] (p $b:U $b':U))", m)
            sb(f"(forall [{b}] (p $b'':U $b''':U))", m)
    # values with binders, and binders in binders
    CH = "(choice [$z:U] (p $z $s:U))"
    for q in Q:
        for q2 in Q + ["choice"]:
            inner = f"({q2} [$c:U] (p $d:U $e:U))"
            if q2 == "choice":
                inner = f"(p {inner} $g:U)"
            for m in (MAPS if t else MAPS[:2]):
                sb(f"({q} [$b:U] {inner})", m)
            sb(f"({q} [$b:U] {inner})".replace("$c", "$b'"), MAPS[0])
        sb(f"({q} [$b:U] (p $d:U $e:U))", "$x:U " + CH)
        sb(f"({q} [$b:U] (p $b $e:U))", "$x:U " + CH + " $y:U $w:U")
    for m in MAPS:
        sb("(choice [$b:U] (p $d:U $e:U))", m)
        sb("(choice [$b:U] (p $b $b':U))", m)
    # let
    for m in MAPS:
        sb("(let [$b $c:U] (p $d:U $e:U))" if t or "$w" not in m else "(let [$b $c:U] (p $b:U $e:U))", m)
        sb("(let [$b (f $c:U)] (p $b $b':U))", m)
        sb("(let [$b $c:U] (let [$g $h:U] (p $d:U $e:U)))" if t else "(let [$b $c:U] (let [$g $b:U] (p $d:U $e:U)))" if m == MAPS[0] else "(let [$b $b:U] (let [$g $b:U] (p $b:U $g:U)))", m)
    for m in MAPS[:4 if t else 2]:
        sb("(let [$b $c:U $g $h:U] (p $d:U $e:U))" if t else "(let [$b $c:U $g $h:U] (p $b:U $g:U))", m)
        sb("(let [$b $b:U $b' $c:U] (p $b $b':U))", m)
        sb("(let [$b' $c:U $b $b':U] (p $b $b':U))", m)
        sb("(let [$b $c:U] (forall [$g:U] (p $d:U $e:U)))", m)
        sb("(forall [$g:U] (let [$b $c:U] (p $d:U $e:U)))", m)
        sb("(forall [$b:U] (let [$b $c:U] (p $b $e:U)))", m)
        sb("(let [$b (choice [$g:U] (p $g $c:U))] (p $b:U $e:U))", m)
        sb("(let [$b (h (forall [$g:U] (p $g $c:U)))] (p $b:U $e:U))", m)
    # variables of the same name and other sorts
    for m in ["$x:U $v:U", "$x:Bool $v:Bool", "$x:U (h $v:Bool)"]:
        sb("(forall [$b:U $b:Bool] (q (p $b:U $e:U) $d:Bool))", m)
        sb("(forall [$b:Bool] (q (p $d:U $e:U) $b:Bool))", m)
        sb("(forall [$b:Bool] (q (p $b:U $e:U) $d:Bool))", m)
    # one substitution, several terms: results are kept
    for m in MAPS[:3]:
        sb("(forall [$b:U] (p $d:U $e:U)) (p $d:U $e:U)", m)
        sb("(p $d:U $e:U) (forall [$d:U] (p $d:U $e:U))", m)
        sb("(forall [$d:U] (forall [$e:U] (p $d:U $e:U))) (forall [$e:U] (p $d:U $e:U)) (p $d:U $e:U)", m)
        sb("(q (forall [$b:U] (p $d:U $e:U)) (p $d:U $e:U))", m)
    # the shapes of terms
    for m in MAPS[:2]:
        sb("(ite (p $b:U $c:U) (= $d:U $e:U) (not (p $e:U $b:U)))", m)
        sb("(p (f (f $b:U)) (ite (p $c:U $d:U) $b:U $e:U))", m)
    for q in ["forall", "exists", "choice", "lambda"]:
        fv(f"({q} [$b:U] (p $d:U $e:U))")
        for b in B2:
            fv(f"({q} [{b}] (p $d:U $e:U))")
            fv(f"({q} [{b}] (q $d:Bool (p $b:U $e:U)))")
        for q2 in ["forall", "choice", "lambda"]:
            i = f"({q2} [$c:U] (p $d:U $e:U))"
            if q2 == "choice":
                i = f"(p {i} $g:U)"
            fv(f"({q} [$b:U] {i})")
            if q2 != "lambda":
                fv(f"(q {i} (p $d:U $c:U))")
                fv(f"{i} ({q} [$b:U] {i}) (p $d:U $c:U)")
    fv("(let [$b $c:U] (p $d:U $e:U))")
    fv("(let [$b $c:U $g $h:U] (p $d:U $e:U))")
    fv("(let [$b $c:U] (let [$g $h:U] (p $d:U $e:U)))")
    fv("(let [$b (choice [$g:U] (p $g $c:U))] (p $d:U $e:U))")
    fv("(let [$b $c:U] (forall [$g:U] (p $d:U $e:U)))")
    fv("(forall [$g:U] (let [$b $c:U] (p $d:U $e:U)))")
    fv("(let [$b (p $c:U $g:U)] (q $d:Bool (p $b:U $e:U)))")
    fv("(let [$b (let [$g $c:U] (f $g:U))] (p $b:U $g:U)) (let [$g $c:U] (f $g:U))")
    fv("(ite (p $b:U $c:U) (= $d:U $e:U) (not (p $e:U (f $g:U))))")
    return out


def programs(pf):
    "whole proofs"
    # assumptions
    for cfg in ["", "e"]:
        pf("a C; s hole 0", "A B", cfg=cfg)
        pf("a C; s hole 0", "A B", sig="and/BB>B =/UU>B", cfg=cfg)
        pf("a C; a D; s resolution,hole 2", "A B", cfg=cfg, d=1)
        pf("[; a C; s subproof,hole 0d D; ]; a E; s hole 0", "A B", cfg=cfg, d=0)
        pf("[; [; a C; s hole 0; s hole 0d D; ]; s hole 0 E; ]; s hole 0; a F", "A B", cfg=cfg, d=0)
    pf("a C; s hole 0", "A", sig="and/BB>B and/BBB>B", d=1)
    pf("a C; s hole 0", "")
    pf("s hole 0", "A")
    # where the empty clause is concluded
    pf("a A; s hole,xyz 0 B", "A", cfg="i")
    pf("[; s hole 0; s hole,subproof 0 B; ]", "A", sig="false/>B not/B>B")
    pf("[; s hole 0; s hole,subproof,xyz 0; ]", "A", sig="false/>B", cfg="i")
    pf("[; s hole 0 A; s resolution,or,reordering,contraction,hole 1; ]", "A", sig="false/>B")
    pf("[; s hole 0; s resolution,or,reordering,contraction,hole 1; ]", "A", sig="false/>B")
    pf("[; s hole 0; s resolution,or,reordering,contraction,hole 1; ]; a B", "A", sig="false/>B")
    pf("[; s hole 0; s resolution,or,reordering,contraction,hole 1; ]; s hole 0 B", "A", sig="false/>B")
    pf("[; [; s hole 0 A; s hole 0; ]; s hole 0 B; ]", "A")
    pf("[; [; s hole 0 A; s hole 0 B; ]; s hole 0; ]", "A")
    pf("[; [; s hole 0 A; s hole 0; ]; s hole 0; ]; s hole 0 A", "A")
    pf("[ x:U; [ y:U; s hole 0 A; s hole 0; ]; s hole 0 B; ]; s hole 0 C", "A", sig="!p/U>B not/B>B")
    pf("s hole 0; a A", "B", d=1)
    pf("s hole 0; [; a A; s hole 0 B; ]; a C", "D")
    pf("s hole 0; s or,xyz,hole 0 B", "D", cfg="i")
    # clause combination with any premises, any rules
    R5 = "resolution,th_resolution,reordering,contraction,weakening,or,hole,lia_generic,xyz"
    pf(f"a A; a B; s {R5} 2", "A B", cfg="i")
    pf(f"a A; a B; s {R5} 1 C; s resolution 2", "A B", cfg="i", allow="xyz", d=0)
    pf(f"a A; a B; s {R5} ? C; s resolution,xyz 0.1,?", "A B", cfg="i", allow="or", d=1)
    pf("a A; a (not A); s resolution ?,?", "A (not A)")
    pf("a A; a (not A); s resolution ?,?", "A B")
    pf("a A; a (not A); s resolution,hole ?,?; s xyz,or ? B", "A (not A)", cfg="i", allow="or")
    pf("a (or A B); a (not A); a (not B); s or ? E F; s resolution 0.1,0.2,?", "(or A B) (not A) (not B)", sig="not/B>B or/BB>B", d=0)
    pf("a (or A B); a (not A); a (not B); s or 0.0 A B; s resolution ?,?,?", "(or A B) (not A) (not B)", sig="not/B>B or/BB>B", d=0)
    pf("a (or A B); a (not A); a (not B); s or 0.0 A B; s resolution ?,? C; s resolution ?,?", "(or A B) (not A) (not B)", sig="not/B>B or/BB>B", d=0)
    pf("a (or A B); a C; s or,reordering 0.0 A B; s resolution ?,? B; s resolution 0.3,?", "(or A B) C", sig="not/B>B or/BB>B", d=1)
    pf("a A; a (not A); s resolution ?,? @ C true", "A (not A)", sig="not/B>B", cfg="e")
    pf("a A; a B; s resolution 0.0,0.1 @ C D", "A B", sig="not/B>B true/>B false/>B", cfg="ei", allow="resolution")
    pf("a A; a B; s hole,xyz ? @ C D", "A B", sig="not/B>B true/>B false/>B", cfg="ei", allow="resolution", d=0)
    for r in ["or", "hole", "xyz", "resolution", "subproof", "assume", "trust", "lia_generic", "all_simplify", "rare_rewrite", "sat_refutation"]:
        pf(f"a A; s {r},hole 1; s {r} 0 B", "A", cfg="i", allow=r)
        pf(f"a A; s {r} 1 B; s hole,{r} 1", "A", cfg="i", allow="hole")
        pf(f"a A; s {r} 1 B; s {r} 1", "A", cfg="", allow="other")
        pf(f"a A; a (not A); s {r} 0 B; s resolution 0.0,0.1", "A (not A)", cfg="i", allow=r)
        pf(f"a A; a (not A); s resolution 0.0,0.1; s {r} 0 B", "A (not A)", cfg="i", allow=r)
        pf(f"a A; a (not A); [; s {r} 0 B; s subproof 0 C; ]; s resolution 0.0,0.1", "A (not A)", cfg="i", allow=r, d=0)
        pf(f"a A; a (not A); [; a B; s hole 0 B; s {r},subproof 0d C; ]; s resolution 0.0,0.1", "A (not A)", cfg="i", allow=r, d=0)
        pf(f"a A; a (not A); [; a B; s reordering 1.0 B; s {r} 0d (not B) B; ]; s resolution 0.0,0.1", "A (not A)", cfg="i", allow=r, d=0)
    # subproofs that discharge assumptions: what comes out may be used with anything in scope
    for pr in ["1.0,?", "?,1.0", "0.0,1.0"]:
        pf(f"a A; a (not A); [; a B; s resolution {pr}; s subproof 0d (not B) false; ]; s resolution ?,?", "A (not A)", sig="not/B>B false/>B", d=1)
        pf(f"a A; [; a B; s resolution {pr}; s subproof 0d (not B) false; ]; s resolution ?,?", "A", sig="not/B>B false/>B", d=1)
    pf("a A; [; a B; s reordering ? B; s subproof 0d (not B) B; ]; s resolution ?,?", "A")
    pf("a A; [; a B; s reordering ? B; s subproof 0d C D; ]; s resolution 0.0,0.1", "A")
    pf("a A; [; a B; s reordering ? C; s subproof 0d C; ]; s resolution 0.0,0.1", "A")
    pf("a A; [; a B; s reordering 1.0 B; s subproof 0D C B; ]; s resolution 0.0,0.1", "A")
    pf("a A; [; a B; s hole 1 C; s subproof,hole,resolution,reordering,xyz,or 1D D; ]; s hole,reordering 0.1", "A B", cfg="i", allow="or", d=0)
    for e in ["(not B) (not C) B", "(not B) (not C) C", "(not B) C", "(not C) (not B) C", "(not B) (not B) B", "(not C) B", "E F C", "E F B"]:
        pf(f"a A; a (not A); [; a B; a C; s reordering ? {e.split()[-1]}; s subproof 0d {e}; ]; s resolution 0.0,?", "A (not A)", d=0)
        pf(f"a A; [; a B; a C; s reordering ? {e.split()[-1]}; s subproof 0D {e}; ]; s resolution 0.0,0.1", "A", d=0)
    pf("a A; [; a B; s subproof 0d C D; ]; s resolution 0.0,0.1", "A")
    pf("a A; [; s subproof 0d D; ]; s hole 1", "A")
    pf("a A; a (not A); [; s reordering ? A; a C; s subproof 0d (not C) A; ]; s resolution ?,0.1", "A (not A)", d=0)
    pf("a A; a (not A); [; s reordering 0.0 A; a C; s subproof 0d D E; ]; s resolution ?,0.1", "A (not A)", d=0)
    for x in ["(not B) B", "C B", "(not B) C", "C D"]:
        pf(f"a A; a (not A); [; [; a B; s reordering ? B; s subproof 0d {x}; ]; s reordering ? (not B) B; s subproof 0d B; ]; s resolution 0.0,0.1", "A (not A)", d=0)
        pf(f"a A; [; a B; [; a C; s reordering ? B; s subproof 0d (not C) B; ]; s reordering 2 {x}; s subproof 0D E F; ]; s resolution 0.0,0.1", "A", d=0)
        pf(f"a A; [; a B; [; a C; s reordering ? C; s subproof 0D {x}; ]; s resolution 1.0,1.1 E; s subproof 0d (not B) E; ]; s resolution 0.0,0.1", "A", d=0)
        pf(f"a A; [; a B; s reordering 1.0 B; s subproof 0d {x}; ]; [; a D; s reordering ? D; s subproof 0d (not D) D; ]; s resolution 0.0,?,?", "A", d=0)
    pf("a A; s subproof 0D B C", "A")
    pf("a A; s subproof,bind,let,hole 1 B; s resolution 0.0,0.1", "A")
    pf("[; a A; s hole 0; s subproof 0d B C; ]; a D; s resolution 0.0,0.1", "D", sig="false/>B not/B>B", d=1)
    pf("[; a A; s xyz,or 0 D; s subproof,hole,or 0d B C; ]; a D; s resolution 0.0,0.1", "D", cfg="i", allow="or")
    # holes anywhere, with statistics
    pf("s hole,reordering 0 B; a A; a (not A); s resolution 0.1,0.2", "A (not A)", cfg="s", d=0)
    pf("a A; a (not A); s reordering 0.0 A; s hole,or,reordering 0.0 A; s resolution ?,0.1; s reordering,hole 0.0 A", "A (not A)", cfg="s", d=0)
    pf("a A; a (not A); [; a B; s hole,reordering 1.0 B; s subproof,hole 0d (not B) B; ]; s resolution 0.0,0.1; s xyz,or 0.0 B", "A (not A)", cfg="si", allow="or", d=0)
    # contexts
    C = "!p/U>B not/B>B"
    X = "s refl 0 (= (p x:U) (p y:U))"
    pf(f"[ x:U:= y:U; {X}; {X}; s hole 0 A; s hole 0 A; ]; [ z:U; s refl 0 (= (p $a:U) (p $b:U)); s refl 0 (= (p $a:U) (p $b:U)); s hole 0 A; ]; s hole 0", "", sig=C, near=1, d=0)
    pf(f"[ x:U:= y:U; {X}; s hole 0 A; ]; s hole 0 A; [ z:U; s refl 0 (= (p $a:U) (p $b:U)); s hole 0 A; ]; s hole 0", "", sig=C, near=1, d=0)
    pf(f"[ w:U; [ x:U:= y:U; {X}; {X}; s hole 0 A; s hole 0 A; ]; [ z:U; s refl 0 (= (p $a:U) (p $b:U)); s refl 0 (= (p $a:U) (p $b:U)); s hole 0 A; ]; s hole 0 A; ]; s hole 0", "", sig=C, near=1, d=0)
    pf(f"[ w:U; [ x:U:= y:U; {X}; {X}; s hole 0 A; s hole 0 A; ]; s refl 0 (= (p $a:U) (p $b:U)); s refl 0 (= (p $a:U) (p $b:U)); s hole 0 A; ]; s hole 0", "", sig=C, near=1, d=0)
    pf(f"[ x:U:= y:U; {X}; {X}; s hole 0 A; s hole 0 A; ]; s refl 0 (= (p $a:U) (p $b:U)); s refl 0 (= (p $a:U) (p $b:U)); s hole 0", "", sig=C, near=1, d=0)
    pf(f"[ x:U:= y:U; [ y:U:= z:U; s refl 0 (= (p $a:U) (p $b:U)); s refl 0 (= (p y:U) (p z:U)); s hole 0 A; ]; s refl 0 (= (p $c:U) (p $d:U)); {X}; s hole 0 A; ]; s hole 0", "", sig=C, near=1, d=0)
    for r in ["refl", "bind", "subproof", "reordering", "cong", "hole", "resolution", "let"]:
        pf(f"[ y:U x:U:= y:U; s refl 0 (= (p $a:U) (p $b:U)); s {r} 1 (= (p $c:U) (p $d:U)); ]; s hole 1", "", sig=C, near=1)
        pf(f"[ y:U; s refl 0 (= (p $a:U) (p $b:U)); s {r} 1 (= (p $c:U) (p $d:U)); ]; s hole 1", "", sig=C, near=1)
    Q = "(= (forall [x:U] (p x:U)) (forall [y:U] (p y:U)))"
    pf(f"[ y:U x:U:= y:U; s refl 0 (= (p $a:U) (p $b:U)); s bind 0 (= (forall [$c:U] (p $a:U)) (forall [$d:U] (p $b:U))); ]; a (forall [$e:U] (p $f:U)); a (not (p $g:U)); s hole 1", "(forall [$e:U] (p $f:U)) (not (p $g:U))", sig=C, near=1)
    pf(f"[ y:U x:U:= y:U; s refl 0 (= (p x:U) (p y:U)); s bind 0 {Q}; ]; s refl 0 (= (p $a:U) (p $b:U)); s hole 2", "", sig=C, near=1)
    pf(f"[ y:U x:U:= y:U; s refl 0 (= (p x:U) (p y:U)); s bind 0 {Q}; ]; s equiv1 ? (not (forall [x:U] (p x:U))) (forall [y:U] (p y:U)); a (forall [x:U] (p x:U)); a (not (forall [y:U] (p y:U))); s resolution ?,0.2,0.3", "(forall [$a:U] (p $b:U)) (not (forall [$c:U] (p $d:U)))", sig=C, near=1)
    pf("[ y:U x:U:= y:U; [ z:U w:U:= x:U; s refl 0 (= (p $a:U) (p $b:U)); s hole 0 A; ]; s hole 0 B; ]; s refl 0 (= (p $a:U) (p $b:U)); s hole 0", "", sig=C, near=1, d=0)
    pf("[ y:U x:U:= y:U; [ z:U w:U:= x:U; s hole 0 C; s hole 0 A; ]; s refl 0 (= (p $a:U) (p $b:U)); s hole 0 B; ]; s hole 0", "", sig=C, near=1, d=0)
    pf("[ y:U x:U:= y:U; s hole 0 A; ]; [ z:U w:U:= z:U; s refl 0 (= (p $a:U) (p $b:U)); s hole 0 B; ]; s hole 0", "", sig=C, near=1, d=0)
    pf("[ y:U x:U:= y:U; [ z:U w:U:= z:U; s hole 0 C; s hole 0 A; ]; [ z:U w:U:= y:U; s refl 0 (= (p $a:U) (p $b:U)); s hole 0 B; ]; s hole 0 D; ]; s hole 0", "", sig=C, near=1, d=0)
    pf("[ y:U; s refl 0 (= (p $a:U) (p $a:U)); s hole 1 A; ]; [ y:U x:U:= y:U; s refl 0 (= (p $b:U) (p $c:U)); s hole,subproof 0 B; ]; s hole 0", "", sig=C, near=1, d=0)


def proof_job(mode, prog, asserts="", sig="not/B>B", d=1, **k):
    k = "".join(f" {a}={{{b}}}" if " " in str(b) else f" {a}={b}" for a, b in k.items())
    return f"mode={mode} v=sig sig={{{sig}}} d={d} asserts={{{asserts}}} prog={{{prog}}}{k}"


def c16(t):
    "whole proofs: the verdict against what each command justifies, and valid proofs against their problem"
    out = []
    programs(lambda *a, **k: out.append(proof_job("check", *a, **k)))
    return out


def c17(t):
    "schedules of all proof shapes; whole proofs by the parallel checker, its threads run one after another"
    out = [f"mode=schedule n={n} size={s} depth={d}" for n, s, d in ([(1, 5, 3), (2, 3, 2), (2, 4, 3), (2, 5, 3), (3, 3, 2), (3, 4, 3), (3, 5, 3), (4, 4, 2), (4, 5, 2), (5, 3, 2), (8, 3, 2)] + ([(2, 6, 4), (3, 6, 3), (4, 6, 3), (2, 7, 3), (8, 4, 3)] if t else [(2, 6, 3)]))]
    for n in ([2, 3, 4] if t else [2, 3]):
        programs(lambda *a, **k: out.append(proof_job("parallel", *a, **k, n=n, **({"orders": 1} if t or n == 2 else {}))))
    return out


def c23(t):
    "the workers interleaved: a worker can stop before any synchronising operation, a bounded number of times"
    out = []
    sig = "!p/U>B !f/U>U !g/UU>U not/B>B"
    def par(prog, asserts="", n=2, k=1, **a):
        if k > (2 if t else 1):
            prog = prog.replace("$a:", "x:").replace("$b:", "y:").replace("$c:", "y:").replace("?", "0.0")
        out.append(proof_job("parallel", prog, asserts, a.pop("sig", sig), d=0, near=1, n=n, orders=1, preempt=k, **a))
    for k in ([1, 2, 3] if t else [1, 2]):
        for c in (["E", ""] if t else ["E"]):
            a = dict(cfg=c) if c else {}
            # a context that several workers use at the same time
            for x in ["(= (p $a:U) (p (f $b:U)))", "(= (p (f $a:U)) (p (f (f $b:U))))"]:
                par(f"[ y:U x:U:= (f y:U); s refl 0 {x}; s refl 0 {x}; s hole 0 A; ]; s hole 0", k=k, **a)
            par("[ y:U x:U:= (f y:U); s refl 0 (= (p $a:U) (p (f $b:U))); s refl 0 (= (p x:U) (p (f y:U))); s refl 0 (= (p (f x:U)) (p (f (f y:U)))); s hole 0 A; ]; s hole 0", k=k, **a)
            par("[ y:U x:U:= (f y:U); s refl 0 (= (p (f x:U)) (p (f (f y:U)))); s refl 0 (= (p x:U) (p (f y:U))); s hole 0 A; ]; s hole 0", k=k, n=3, **a)
            # what a worker computes for its context reaches the others
            par("[ y:U x:U:= (f y:U); [ w:U:= (f x:U); s refl 0 (= (p $a:U) (p (f (f $b:U)))); s refl 0 (= (p w:U) (p (f (f y:U)))); s hole 0 A; ]; s hole 0 A; ]; s hole 0", k=k, **a)
            par("[ y:U x:U:= (f y:U); [ w:U:= (g x:U y:U); s refl 0 (= (p w:U) (p (g (f y:U) y:U))); s refl 0 (= (p w:U) (p (g (f $b:U) $c:U))); s hole 0 A; ]; s refl 0 (= (p x:U) (p (f y:U))); s hole 0 A; ]; s hole 0", k=k, **a)
            par("[ y:U x:U:= (f y:U); [ z:U w:U:= (f x:U); s refl 0 (= (p w:U) (p (f (f y:U)))); s hole 0 C; ]; [ v:U:= (f x:U); s refl 0 (= (p v:U) (p (f (f $c:U)))); s hole 0 D; ]; s hole 0 A; ]; s hole 0", k=k, **a)
            # bound variables, renaming
            par("[ y:U x:U:= y:U; s refl 0 (= (forall [z:U] (p x:U)) (forall [z:U] (p y:U))); s refl 0 (= (forall [$a:U] (p x:U)) (forall [$a:U] (p $b:U))); s hole 0 A; ]; s hole 0", k=k, **a)
            par("[ y:U x:U:= y:U; s refl 0 (= (p x:U) (p y:U)); s bind 0 (= (forall [x:U] (p x:U)) (forall [$a:U] (p $b:U))); ]; s hole 1; s refl 0 (= (p x:U) (p $c:U))", k=k, **a)
            # contexts one after another: what belongs to one is not left for another
            par("[ y:U x:U:= y:U; s refl 0 (= (p $a:U) (p y:U)); s hole 0 A; ]; [ z:U x:U:= z:U; s refl 0 (= (p $b:U) (p z:U)); s hole 0 A; ]; s hole 0", k=k, **a)
            par("[ y:U x:U:= y:U; s hole 0 C; s hole 0 A; ]; s refl 0 (= (p $a:U) (p $b:U)); [ z:U x:U:= z:U; s refl 0 (= (p $b:U) (p z:U)); s hole 0 B; ]; s hole 0", k=k, **a)
        # an error or a hole found by any worker, in any order
        for r in ["hole", "xyz", "reordering", "or"]:
            par(f"a A; s {r},hole 1 A; s reordering 0.0 A; s reordering,hole 0.0 B; s hole 0", "A", k=k, sig="not/B>B", cfg="i")
            par(f"a A; a (not A); s resolution 0.0,0.1; s {r} 0.0 B; s {r},reordering 0.0 C", "A (not A)", k=k, sig="not/B>B", n=3, cfg="i")
            par(f"a A; a (not A); s resolution 0.0,0.1; s {r} 0.0 B; s {r},reordering 0.0 C", "A (not A)", k=k, sig="not/B>B", cfg="Si")
        par("a A; a (not A); [; a B; s reordering 1.0 B; s subproof 0d (not B) B; ]; s resolution 0.0,?; s resolution 0.1,?", "A (not A)", k=k, sig="not/B>B")
        par("a A; a B; a (not C); s resolution 0.0,?; s reordering ? C", "A (not B) C", k=k, sig="not/B>B", n=3)
        par("[; a A; s reordering 1.0 A; s subproof 0d (not A) A; ]; [; a B; s reordering ? B; s subproof 0d (not B) B; ]; s hole 0", "", k=k, sig="not/B>B", n=3)
    return out


def c18(t):
    "the elaboration of accepted proofs is accepted (with the elaborated granularity), proves the same and leaves nothing more out"
    out = []
    LOG = "!p/U>B not/B>B or/BB>B and/BB>B =/UU>B"
    def pf(prog, asserts="", sig=LOG, **k):
        k.setdefault("d", 0)
        out.append(proof_job("elab", prog, asserts, sig, near=1, **k))
    # resolution: the premises' order, the pivots and what the conclusion leaves out or repeats
    for rule in ["resolution", "th_resolution"] if t else ["resolution"]:
        for c in ["(not C)", "(not (not C))"]:
            pf(f"s hole 0 A; s hole 0 {c}; s {rule} 0.0,0.1; s hole 0.2")
            pf(f"s hole 0 A; s hole 0 {c}; s {rule} 0.1,0.0; s hole 0.2")
            pf(f"s hole 0 A B; s hole 0 {c}; s {rule} 0.0,0.1 E; s hole 0.2")
            pf(f"s hole 0 A B; s hole 0 {c}; s {rule} 0.0,0.1 (not (not E)); s hole 0.2")
            pf(f"s hole 0 A B; s hole 0 {c} D; s {rule} 0.0,0.1 E; s hole 0.2")
            pf(f"s hole 0 A B; s hole 0 {c} D; s {rule} 0.0,0.1 E F; s hole 0.2")
            pf(f"s hole 0 A B; s hole 0 {c} (not D); s {rule} 0.0,0.1 E F; s hole 0.2")
            pf(f"s hole 0 A (not B); s hole 0 {c} (not D); s {rule} 0.0,0.1 E F; s hole 0.2")
            pf(f"s hole 0 A (not B); s hole 0 {c} (not D); s {rule} 0.0,0.1 E (not F); s hole 0.2")
            pf(f"s hole 0 A B; s hole 0 {c} D; s {rule} 0.0,0.1 E F G; s hole 0.2")
            for e in ["D", "(not D)"]:
                pf(f"s hole 0 A B; s hole 0 {c}; s hole 0 {e}; s {rule} 0.0,0.1,0.2; s hole 0.3")
                pf(f"s hole 0 A B; s hole 0 {c}; s hole 0 {e}; s {rule} 0.1,0.0,0.2; s hole 0.3")
                pf(f"s hole 0 A B G; s hole 0 {c}; s hole 0 {e}; s {rule} 0.0,0.1,0.2 F; s hole 0.3")
                if t or c == "(not C)":
                    pf(f"s hole 0 A B G; s hole 0 {c}; s hole 0 {e} F; s {rule} 0.0,0.1,0.2 H; s hole 0.3")
                if t or (c == "(not C)" and e != "D"):
                    pf(f"s hole 0 A B G; s hole 0 {c}; s hole 0 {e} F; s {rule} 0.0,0.1,0.2 H I; s hole 0.3")
                    pf(f"s hole 0 A B; s hole 0 {c} G; s hole 0 {e} F; s {rule} 0.0,0.1,0.2 H I; s hole 0.3")
        # the pivots of crowding literals: with the premises rotated
        pf(f"s hole 0 A B; s hole 0 (not C) D; s {rule} 0.0,0.1 E F; s hole 0.2", rotate=1)
        pf(f"s hole 0 A B; s hole 0 (not C) D; s hole 0 (not E) F; s {rule} 0.0,0.1,0.2 G; s hole 0.3", rotate=1)
        pf(f"s hole 0 A B G; s hole 0 (not C); s hole 0 (not D); s {rule} 0.0,0.1,0.2 F; s hole 0.3", rotate=1)
        pf(f"s hole 0 (not true); s {rule} 0.0; s hole 0.1", sig=LOG + " true/>B")
        if t:
            pf(f"s hole 0 A B; s hole 0 (not C) D; s {rule} 0.0,0.1 E F @ P Q; s hole 0.2", sig="not/B>B true/>B false/>B")
        pf(f"s hole 0 A B; s hole 0 (not C); s {rule} 0.0,0.1 E @ P Q; s hole 0.2", sig="not/B>B true/>B false/>B")
        pf(f"s hole 0 A B; s hole 0 (not C) D; s {rule} 0.0,0.1 E F G; s hole 0.2", any=1)
    # transitivity
    for n in (1, 2, 3):
        pf("".join(f"s hole 0 (= {chr(65+2*i)}:U/0 {chr(66+2*i)}:U/0); " for i in range(n)) + f"s trans {','.join(f'0.{i}' for i in range(n))} (= Y:U/0 Z:U/0); s hole 0.{n}")
        pf("s eq_transitive 0 " + "".join(f"(not (= {chr(65+2*i)}:U/0 {chr(66+2*i)}:U/0)) " for i in range(n)) + "(= Y:U/0 Z:U/0); s hole 0.0")
    # congruence
    CONG = "!p/UU>B !f/U>U !g/UU>U not/B>B or/BB>B =/UU>B"
    for f, m in (("f", 1), ("g", 2)):
        L, R = " ".join(f"{x}:U/0" for x in "ABC"[:m]), " ".join(f"{x}:U/0" for x in "XYZ"[:m])
        for n in range(3):
            prem = "".join(f"s hole 0 (= {'DF'[i]}:U/0 {'EG'[i]}:U/0); " for i in range(n))
            pf(prem + f"s cong {','.join(f'0.{i}' for i in range(n)) or 0} (= ({f} {L}) ({f} {R})); s hole 0.{n}", sig=CONG)
            pf("s eq_congruent 0 " + "".join(f"(not (= {'DF'[i]}:U/0 {'EG'[i]}:U/0)) " for i in range(n)) + f"(= ({f} {L}) ({f} {R})); s hole 0.0", sig=CONG)
    EQ = "=/UU>B =/BB>B"
    pf("s hole 0 (= A:U/0 B:U/0); s cong 0.0 (= (= C:U/0 D:U/0) (= E:U/0 F:U/0)); s hole 0.1", sig=EQ)
    if t:
        pf("s hole 0 (= A:U/0 B:U/0); s hole 0 (= G:U/0 H:U/0); s cong 0.0,0.1 (= (= C:U/0 D:U/0) (= E:U/0 F:U/0)); s hole 0.2", sig=EQ)
    # reflexivity up to a context and the direction of equalities
    BND = "!p/U>B !q/UU>B !f/U>U not/B>B or/BB>B forall/UB>B =/UU>B"
    pf("[ y:U x:U:= y:U; s refl 0 (= (p x:U) (p y:U)); s bind 0 (= (forall [x:U] (p x:U)) (forall [y:U] (p y:U))); ]; s hole 0.0", sig=BND)
    pf("[ y:U x:U:= y:U; s refl 0 (= (q A:U B:U) (q C:U D:U)); s bind 0 (= (forall [x:U] (q A:U B:U)) (forall [y:U] (q C:U D:U))); ]; s hole 0.0", sig=BND)
    pf("[ x:U; s refl 0 (= (q A:U B:U) (q C:U D:U)); s bind 0 (= (forall [x:U] (q A:U B:U)) (forall [x:U] (q C:U D:U))); ]; s hole 0.0", sig=BND)
    for a in ["(= (p A:U) (p B:U))", "(= (= A:U/0 B:U/0) (= C:U/0 D:U/0))", "(= (not (= A:U/0 B:U/0)) (not (= C:U/0 D:U/0)))", "(= (p (f A:U/0)) (p B:U))", "(= (forall [x:U] (p A:U)) (forall [y:U] (p B:U)))", "(= (forall [x:U] (= x:U A:U/0)) (forall [y:U] (= B:U/0 C:U/0)))"]:
        pf(f"s refl 0 {a}; s hole 0.0", sig=BND)
    # assumptions up to the direction of equalities, the names of bound variables and the nesting of applications
    for a, b in [("(= A:U/0 B:U/0)", "(= C:U/0 D:U/0)"), ("(not (= A:U/0 B:U/0))", "(not (= C:U/0 D:U/0))"), ("(or (= A:U/0 B:U/0) F)", "(or (= C:U/0 D:U/0) G)"), ("(p A:U)", "(p B:U)"), ("(forall [x:U] (= x:U A:U/0))", "(forall [y:U] (= B:U/0 y:U))"), ("(forall [x:U] (= x:U A:U/0))", "(forall [x:U] (= B:U/0 C:U/0))")]:
        pf(f"a {a}; s hole 0.0", asserts=b, sig=BND)
    AND = "and/BB>B and/BBB>B and/BBBB>B or/BB>B or/BBB>B not/B>B =/BB>B"
    for a, b in [("(and A B C)", "(and D (and E F))"), ("(and A (and B C))", "(and D E F)"), ("(and (and A B) C)", "(and D E F)"), ("(and D E F)", "(and (and A B) C)"), ("(or (or A B) C)", "(or D E F)"), ("(= (and A B C) D)", "(= E (and (and F G) H))"),
                 ("(not (and A B C))", "(not (and (and F G) H))"), ("(and (and (and A B) C) D)", "(and (and E F) G H)"), ("(and (and A B) C D)", "(and E F G H)"), ("(and (and A B C) D)", "(and E F G H)"), ("(and A B C D)", "(and (and (and E F) G) H)")]:
        if t or a not in ("(and (and (and A B) C) D)", "(and A B C D)"):
            pf(f"a {a}; s hole 0.0", asserts=b, sig=AND)
    pf("a (=> A (=> B C)); s hole 0.0", asserts="(=> D E F)", sig="=>/BB>B =>/BBB>B")
    pf("a (=> A B C); s hole 0.0", asserts="(=> D (=> E F))", sig="=>/BB>B =>/BBB>B")
    CH = "=/UUU>B and/BB>B =/UU>B"
    pf("a (= A:U/0 B:U/0 C:U/0); s hole 0.0", asserts="(and (= D:U/0 E:U/0) (= F:U/0 G:U/0))", sig=CH)
    pf("a (and (= A:U/0 B:U/0) (= C:U/0 D:U/0)); s hole 0.0", asserts="(= E:U/0 F:U/0 G:U/0)", sig=CH)
    pf("a (distinct A:U/0 B:U/0); s hole 0.0", asserts="(not (= D:U/0 E:U/0))", sig="distinct/UU>B not/B>B =/UU>B")
    if t:
        AO = "and/BB>B and/BBB>B or/BB>B or/BBB>B =/UU>B =/BB>B not/B>B"
        pf("a (and (and (= A:U/0 B:U/0) (= C:U/0 D:U/0)) E); s hole 0.0", asserts="(and (= F:U/0 G:U/0) (= H:U/0 I:U/0) J)", sig=AO)
        pf("a (and (= A:U/0 B:U/0) (= C:U/0 D:U/0) E); s hole 0.0", asserts="(and (and (= F:U/0 G:U/0) (= H:U/0 I:U/0)) J)", sig=AO)
        LE = "<=/III>B <=/II>B and/BB>B"
        pf("a (<= A:Int/0 B:Int/0 C:Int/0); s hole 0.0", asserts="(and (<= D:Int/0 E:Int/0) (<= F:Int/0 G:Int/0))", sig=LE)
        pf("a (and (<= A:Int/0 B:Int/0) (<= C:Int/0 D:Int/0)); s hole 0.0", asserts="(<= E:Int/0 F:Int/0 G:Int/0)", sig=LE)
        pf("a (= A:Int/0 (+ B:Int/0 C:Int/0 D:Int/0)); s hole 0.0", asserts="(= (+ (+ E:Int/0 F:Int/0) G:Int/0) H:Int/0)", sig="+/II>I +/III>I =/II>B")
    else:
        pf("a (and (and (= A:U/0 B:U/0) C) E); s hole 0.0", asserts="(and (= F:U/0 G:U/0) C J)", sig="and/BB>B and/BBB>B =/UU>B")
    # subproofs, whose conclusion is what the previous step concludes, up to equalities
    N = "not/B>B"
    pf("[; a A; s hole 0 B; s subproof 0d (not C) D; ]; s hole 0.0", sig=BND)
    pf("[; a A; s hole 0; s subproof 0d (not C) D; ]; s hole 0.0", sig="not/B>B false/>B")
    pf("[; a A; a B; s subproof 0d (not C) (not D) E; ]; s hole 0.0", sig=N)
    pf("[; a A; s subproof 0d (not C) D; ]; s hole 0.0", sig=N)
    pf("[; a A; [; a B; s hole 0 C; s subproof 0d (not B) C; ]; s subproof 0d (not D) E; ]; s hole 0.0", sig=N)
    pf("[; a A; [; a B; s hole 0 C; s subproof 0d (not B) C; ]; s hole ? D; s subproof 0d (not D) E; ]; s hole 0.0", sig=N)
    pf("[; a (= A:U/0 B:U/0); s hole 0 C; s subproof 0d (not (= E:U/0 F:U/0)) D; ]; s hole 0.0", sig="not/B>B =/UU>B")
    pf("[; a A; s hole 0 (= C:U/0 D:U/0); s subproof 0d (not B) (= G:U/0 H:U/0); ]; s hole 0.0", sig="not/B>B =/UU>B")
    if t:
        pf("[; a (= A:U/0 B:U/0); s hole 0 (= C:U/0 D:U/0); s subproof 0d (not (= E:U/0 F:U/0)) (= G:U/0 H:U/0); ]; s hole 0.0", sig=BND)
        pf("a A; [; a B; s reordering ? C; s resolution ?,? ; s subproof 0d (not B) D; ]; s hole 0.0", asserts="A", sig="not/B>B false/>B")
    pf("a A; [; a B; s resolution 0.0,1.0; s subproof 0d (not B) D; ]; s hole 0.0", asserts="A", sig="not/B>B false/>B")
    pf("s forall_inst 0 (or (not (forall [x:U] (p x:U))) (p A:U)) @ A:U; s hole 0.0", sig=BND)
    pf("s forall_inst 0 (or (not (forall [x:U] (= x:U B:U/0))) (= C:U/0 D:U/0)) @ A:U; s hole 0.0", sig=BND)
    pf("s forall_inst 0 (or (not (forall [x:U y:U] (q x:U y:U))) (q A:U B:U)) @ C:U D:U; s hole 0.0", sig=BND)
    # conclusions up to the direction of equalities
    ITE = "!p/U>B ite/BUU>U and/BB>B =/UU>B =/BB>B ite/BBB>B"
    pf("s ite_intro 0 (= A (and A (ite B (= (ite B C:U/0 D:U/0) C:U/0) (= (ite B C:U/0 D:U/0) D:U/0)))); s hole 0.0", sig=ITE)
    if t:
        pf("s ite_intro 0 (= (p (ite B C:U/0 D:U/0)) (and (p E:U/1) (ite F (= G:U/1 H:U/0) (= I:U/1 J:U/0)))); s hole 0.0", sig=ITE)
        pf("s ite_intro 0 (= (p (ite B C:U/0 D:U/0)) (and (p E:U/1) (ite F (= H:U/0 G:U/1) (= J:U/0 I:U/1)))); s hole 0.0", sig=ITE)
    else:
        pf("s ite_intro 0 (= (p (ite B C:U/0 D:U/0)) (and (p (ite B C:U/0 D:U/0)) (ite F (= H:U/0 (ite B C:U/0 D:U/0)) (= (ite B C:U/0 D:U/0) I:U/0)))); s hole 0.0", sig=ITE)
    BF = "!r/B>B !s/BU>B true/>B false/>B and/BB>B or/BB>B =/BB>B ite/BBB>B"
    pf("s hole 0 (r A); s bfun_elim 0.0 (ite B (r true) (r false)); s hole 0.1", sig=BF)
    if t:
        pf("s hole 0 (r A); s bfun_elim 0.0 B; s hole 0.1", sig=BF, d=1)
    # what depends on the order of literals
    SM = "not/B>B or/BB>B"
    pf("s hole 0 A B; s reordering 0.0 C D; s hole 0 (not E); s resolution 0.1,0.2 F; s hole 0.3", sig=SM)
    pf("s hole 0 A B; s reordering 0.0 C D; s weakening 0.1 E F G; s hole 0.2", sig=SM)
    pf("s hole 0 A B; s reordering 0.0 C D; s contraction 0.1 E; s hole 0.2", sig=SM)
    pf("s hole 0 A B A; s reordering 0.0 D E F; s contraction 0.1 G H; s hole 0.2", sig=SM)
    pf("s hole 0 A B A; s reordering 0.0 D E F; s contraction 0.1 G H I; s hole 0.2", sig=SM)
    pf("s hole 0 (not (or A B)); s not_or 0.0 C; s hole 0.1")
    pf("s hole 0 (or A B); s or 0.0 C D; s reordering 0.1 D C; s hole 0 (not G); s resolution 0.2,0.3 H; s hole 0.4", sig=SM)
    pf("[; a A; s hole 0 B C; s reordering ? D E; s hole 0 (not F); s resolution 1.2,1.3 G; s subproof 0d (not A) G; ]; s hole 0.0", sig=SM)
    if t:
        pf("s hole 0 A B C; s reordering 0.0 D E F; s hole 0 (not G); s resolution 0.1,0.2 H I; s hole 0.3", sig=SM)
        pf("s hole 0 A B C; s reordering 0.0 D E F; s contraction 0.1 G H; s hole 0.2", sig=SM)
        pf("s hole 0 A B C; s reordering 0.0 D E F; s contraction 0.1 G H I; s hole 0.2", sig=SM)
        pf("s hole 0 A B; s reordering 0.0 C D; s weakening 0.1 E F G; s reordering 0.2 H I J; s hole 0.3", sig=SM)
        pf("s hole 0 (or A B); s or 0.0 C D; s reordering 0.1 E F; s hole 0 (not G); s resolution 0.2,0.3 H; s hole 0.4", sig=SM)
    return out


def c19(t):
    "the slice of every command of every accepted proof of a size, whatever refers to what, at any distance"
    out = [f"mode=slice size={s} depth={d} prem={p}" for s, d, p in [(1, 1, 2), (2, 1, 2), (3, 2, 1), (3, 1, 2), (3, 2, 2), (4, 3, 1), (4, 2, 2)] + ([(4, 3, 3), (5, 2, 1), (5, 3, 1), (5, 3, 2), (6, 3, 1), (7, 2, 1)] if t else [(5, 3, 1)])]
    # real rules: binding contexts, subproofs in subproofs, steps that rest on more than a hole
    def pf(prog, asserts="", sig="!p/U>B not/B>B or/BB>B", **k):
        out.append(proof_job("slice", prog, asserts, sig, d=0, near=1, **k))
    pf("a A; a (not A); s resolution 0.0,0.1; s hole 1", "A (not A)")
    pf("a A; [; a B; s reordering ? B; s subproof 0d (not B) B; ]; a C; s hole ? D; s hole 1 A; s hole ?", "A C")
    pf("a A; [; a B; [; a C; s reordering ? C; s subproof 0d (not C) C; ]; s hole ? D; s subproof 0d (not B) D; ]; s reordering ? A; s hole ?", "A")
    pf("[ y:U x:U:= y:U; s refl 0 (= (p x:U) (p y:U)); s bind 0 (= (forall [x:U] (p x:U)) (forall [y:U] (p y:U))); ]; s hole ? A; s hole ?")
    pf("[ y:U x:U:= y:U; s hole 0 A; s refl 0 (= (p x:U) (p y:U)); s bind 0 (= (forall [x:U] (p x:U)) (forall [y:U] (p y:U))); ]; s hole ? A; s hole ?")
    pf("[ y:U x:U:= y:U; [ w:U z:U:= w:U; s hole 0 A; s refl 0 (= (p z:U) (p w:U)); s bind 0 (= (forall [z:U] (p z:U)) (forall [w:U] (p w:U))); ]; s refl ? (= (p x:U) (p y:U)); s bind 0 (= (forall [x:U] (p x:U)) (forall [y:U] (p y:U))); ]; s hole ? A; s hole ?")
    return out


def c10(t):
    """string rules: strings of any length, except that words tested for membership have at most 3
    characters; regular expressions nothing is known about stand for languages of at most two words"""
    out = []
    CC = "str.++/TT>T str.++/TTT>T true/>B false/>B"
    S0, V = "String/0", "$%s:String"
    def s(rule, concl, prem, sig=CC, d=1, **k):
        out.append(P(rule, concl, v="sig", sig=sig, d=d, prem=" ".join(f"[{p}]" for p in prem), **k))
    both = ("true", "false")
    # two lists of components that are equal
    sides = ['(str.++ A:String/0 B:String/0 C:String/0)', '(str.++ A:String/0 (str.++ B:String/0 C:String/0))', '(str.++ ?s:str2 A:String/0)', '(str.++ A:String/0 ?s:str2)', '(str.++ "" A:String/0 B:String/0)']
    other = ['(str.++ D:String/0 E:String/0)', '?r:str2', '?r:str1', '(str.++ ?r:str2 D:String/0)', '(str.++ D:String/0 ?r:str2)', 'D:String/0', '""']
    for a in both:
        for i, x in enumerate(sides):
            for k, y in enumerate(other):
                if not t and (i + k) % 2 and i > 0 and k > 0: continue
                for eq in [f"(= {x} {y})"] + ([f"(= {y} {x})"] if t or i == k or k == 5 else []):
                    s("concat_eq", "(= F:String/1 G:String/1)", [eq], argp=a)
                    s("concat_conflict", "false", [eq], argp=a)
                    s("concat_conflict", "H", [eq], argp=a, sig=CC + " not/B>B") if t or k < 3 else None
                    if t or (i, k) in [(0, 0), (0, 3), (2, 4), (3, 3)] or (i, k) == (3, 4) and a == "true":
                        for h in ("H:String/0", "(str.++ H:String/0 J:String/0)"):
                            for g in ("I:String/0", "(str.++ I:String/0 K:String/0)"):
                                for u in [(h, g), (g, h), (h, h), (g, g)] if t or h[0] == g[0] != "(" else [(h, g), (g, g)]:
                                    u = (u[0].replace("H", "F").replace("I", "F").replace("J", "L").replace("K", "L"), u[1].replace("H", "G").replace("I", "G").replace("J", "M").replace("K", "M"))
                                    s("concat_unify", f"(= {u[0]} {u[1]})", [eq, f"(= (str.len {h}) (str.len {g}))"], argp=a, d=0)
        for x in ["?s:str3", "(str.++ ?s:str1 ?t:str2)", "(str.++ A:String ?s:str1)"]:
            for y in ["?r:str2", "(str.++ ?r:str1 B:String)", "(str.++ B:String ?r:str1)", "(str.++ ?r:str2 B:String ?p:str1)"]:
                s("concat_conflict", "false", [f"(= {x} {y})"], argp=a, d=0)
                s("concat_eq", "(= F:String/1 G:String/1)", [f"(= {x} {y})"], argp=a, d=0)
    for x in ["(= (str.len H:String) (str.len I:String))", "(= (str.len H:String) (str.to_code I:String))", "(= (str.len H:String) 1)"]:
        s("concat_unify", "(= F:String/1 G:String/1)", ["(= (str.++ A:String/0 B:String/0) (str.++ ?s:str2 D:String/0))", x], d=0, argp="false")
    # a first character
    num = ["?%s", "(str.len $%s:String)", "(- (str.len $%s:String) ?%s')"]
    lhs = ["(str.++ $a:String $b:String)", "(str.++ $a:String $b:String $c:String)", "(str.++ ?k:str2 $a:String)", "(str.++ $a:String ?k:str2)"]
    rhs = ["(str.++ ?s:str1 $e:String)", "(str.++ ?s:str2 $e:String)", "(str.++ $e:String ?s:str2)", "?s:str2", "(str.++ $e:String ?s:str1 $f:String)"]
    zero = ["(not (= (str.len %s) ?z))", "(= (str.len %s) ?z)"]
    ones = ["$g:String", "(str.++ $g:String $h:String)", "?g:str1", "?g:str2"]
    subs = ["(str.substr %s ?i (- (str.len %s) ?j))", "(str.substr %s ?i ?j)", "(str.substr %s (- (str.len %s) ?i) ?j)", "(str.substr %s ?i (str.len %s))"]
    for q, m in (("prefix", "(= %s (str.++ %s %s))"), ("suffix", "(= %s (str.++ %s %s))")):
        for i, l in enumerate(lhs):
            for k, r in enumerate(rhs):
                if not t and (i + k) % 2: continue
                for o in ones:
                    for b in subs if t or i == 0 else subs[:1]:
                        z = b.replace("%s", o.replace("$g", "$u").replace("$h", "$v").replace("?g", "?u"))
                        oo = o.replace("$g", "$w").replace("$h", "$x").replace("?g", "?w")
                        for c in ([f"(= {oo} (str.++ ?c:str1 {z}))", f"(= {oo} (str.++ {z} ?c:str1))"]):
                            for n in zero[:2 if t else 1]:
                                s("concat_csplit_" + q, c, [f"(= {l} {r})", n % o], d=0)
    # different lengths: a remainder
    for q in ("prefix", "suffix"):
        for l, r in [("(str.++ $a:String $b:String)", "(str.++ $c:String $d:String)"), ("(str.++ $a:String $b:String $a':String)", "(str.++ ?c:str1 $d:String)"), ("(str.++ ?a:str1 ?b:str1 $b:String)", "(str.++ $c:String $d:String)")]:
            for o, p in [("$g:String", "$h:String"), ("(str.++ $g:String $g':String)", "$h:String"), ("?g:str1", "$h:String"), ("$g:String", "?h:str1")]:
                for rem in ["(ite (>= (str.len A) (str.len B)) (str.substr A (str.len B) (- (str.len A) (str.len B))) (str.substr B (str.len A) (- (str.len B) (str.len A))))",
                            "(ite (>= (str.len A) (str.len B)) (str.substr A 0 (- (str.len A) (str.len B))) (str.substr B 0 (- (str.len B) (str.len A))))",
                            "(str.substr A (str.len B) (- (str.len A) (str.len B)))", "(str.substr A 0 (- (str.len A) (str.len B)))"]:
                    for k, order in enumerate(["AR", "RA"]):
                        # one occurrence of a component at a time may be another one
                        R = rem.replace("A", o).replace("B", p)
                        cat = lambda u: f"(str.++ {u} {R})" if order == "AR" else f"(str.++ {R} {u})"
                        flat = lambda u: cat(u[8:-1]) if u.startswith("(str.++") else cat(u)
                        w = "$w:String"
                        for ne, gt in [('""', "0")] + ([("?e:str1", "0"), ('""', "1")] if o == "$g:String" else []):
                            for e1, e2 in [(f"(= {o} {flat(p)})", f"(= {p} {flat(o)})"), (f"(= {p} {flat(p)})", f"(= {p} {flat(o)})"), (f"(= {o} {flat(p)})", f"(= {o} {flat(o)})"), (f"(= {w} {flat(p)})", f"(= {p} {flat(o)})")]:
                                if not t and e1 != e2 and rem.startswith("(str") and (e1, e2) != (f"(= {o} {flat(p)})", f"(= {p} {flat(o)})"): continue
                                if not t and l[8:10] != "$a" and (e1[3:] == e2[3:] or "$w" in e1): continue
                                tail = f"(not (= {R} {ne})) (> (str.len {R}) {gt})"
                                if t or rem.startswith("(ite"):
                                    s("concat_split_" + q, f"(and (or {e1} {e2}) {tail})", [f"(= {l} {r})", f"(not (= (str.len {o}) (str.len {p})))"], d=0)
                                for cmp in ("(> (str.len %s) (str.len %s))", "(>= (str.len %s) (str.len %s))", "(not (= (str.len %s) (str.len %s)))"):
                                    if cmp[1] == ">" and cmp[2] == " " or (t or o == "$g:String"):
                                        s("concat_lprop_" + q, f"(and {e1} {tail})", [f"(= {l} {r})", cmp % (o, p)], d=0)
    # constants that overlap
    for q in ("prefix", "suffix"):
        for x, y in [("?k:str1", "?m:str2"), ("?k:str2", "?m:str2"), ("?k:str2", "?m:str3"), ('""', "?m:str2"), ("$k:String", "?m:str2"), ("$k:String", "?m:str3"), ("?k:str1", "(str.++ $m:String $p:String $q:String)"), ("(str.++ ?k:str1 $k:String)", "?m:str3"), ("?k:str1", "$m:String"), ("?k:str2", "?m:str1"), ("?k:str2", '""')] + ([("?k:str3", "?m:str3"), ("?k:str1", "?m:str3"), ("?k:str2", "?m:str4")] if t else []):
            for i, r in enumerate([y, f"(str.++ {y} $e:String)", f"(str.++ $e:String {y})", f"(str.++ {y})", f"(str.++ {y} $e:String {y.replace('m', 'p')})", f"(str.++ $e:String {y} {y.replace('m', 'p')})"]):
                if not t and i > 2 and (x, y) not in [("?k:str1", "?m:str2"), ("$k:String", "?m:str2")]: continue
                for ch in [y, y.replace("m", "p"), "$p:String"]:
                    if ch == y.replace("m", "p") and "p" not in r and not t: continue
                    ch = ch.replace("p:", "q:") if "p" not in r else ch
                    pre = f"(str.substr {ch} 0 ?v)"
                    suf = f"(str.substr {ch} (- (str.len {ch}) ?v) ?v)"
                    n = "$n:String"
                    if q == "prefix":
                        cs = [f"(= $g:String (str.++ {oc} (str.substr {n} (str.len {oc}) (- (str.len {n}) (str.len {oc})))))" for oc in (pre, suf)]
                    else:
                        cs = [f"(= $g:String (str.++ (str.substr {n} 0 (- (str.len {n}) (str.len {oc}))) {oc}))" for oc in (pre, suf)]
                    for c in cs:
                        s("concat_cprop_" + q, c, [f"(= (str.++ $a:String {x} $b:String) {r})", "(not (= (str.len $c:String) ?z))"], d=0)
    # parts of given length
    for a in both:
        for x in ["$a:String", "?s:str2", "(str.++ $a:String $b:String)"]:
            for n in ["?n", "$n:Int", "(str.len $c:String)", "(- $n:Int ?n)"]:
                for w1, w2 in [("(str.substr X 0 N)", "(str.substr X N (- (str.len X) N))"), ("(str.substr X 0 (- (str.len X) N))", "(str.substr X (- (str.len X) N) N)"), ("(str.substr X 0 I)", "(str.substr X J (- (str.len X) K))")]:
                    for l in "12":
                        for ge in (">=", "<=", ">")[:3 if t or n == "?n" else 1]:
                            f = lambda z: re.sub(r"\b[XNIJK]\b", lambda m: {"X": x, "N": n, "I": "?i", "J": "?j", "K": "?k"}[m[0]], z)
                            s("string_decompose", f"(and (= {x.replace('$a', '$d')} (str.++ {f(w1)} {f(w2)})) (= (str.len {f(w1) if l == '1' else f(w2)}) {n.replace('?n', '?m').replace('$n', '$m')}))", [f"({ge} (str.len {x}) {n})"], d=0, argp=a, **({"sig": CC + " sort/>I"}))
    for c in ["(or (and (= (str.len A:String/0) ?n) (= B:String/0 C:String/0)) (> (str.len D:String/0) ?m))", "(or (and (= (str.len A:String/0) 0) (= B:String/0 \"\")) (> (str.len D:String/0) 0))"]:
        s("string_length_pos", c, [], argp="E:String/1")
        s("string_length_pos", c.replace("String/0", "String/1") if c.endswith("0))") and t else c, [], argp="E:String/0")
    for c in ["(not (= (str.len A:String) ?n))", "(= (str.len A:String) ?n)"]:
        for p in ['(not (= B:String ""))', "(not (= B:String C:String))", '(not (= "" B:String))', '(= B:String "")']:
            s("string_length_non_empty", c, [p])
    # regular expressions
    RE = "sort/>L " + CC
    for p, q in [("A:RegLan/0", "B:RegLan/0"), ("A:RegLan/0", '(re.++ B:RegLan/0 C:RegLan/0)')]:
        for c in ["re.inter", "re.union", "re.diff"]:
            s("re_inter", f"(str.in_re A1:String/0 ({c} D:RegLan/1 E:RegLan/1))", [f"(str.in_re B1:String/0 {p})", f"(str.in_re C1:String/0 {q})"], sig=RE + " re.++/LL>L")
        s("re_inter", "(str.in_re A1:String/0 (re.inter D:RegLan/0 E:RegLan/0 F:RegLan/0))", [f"(str.in_re B1:String/0 {p})", f"(str.in_re C1:String/0 {q})"], sig=RE)
        s("re_inter", "(not (str.in_re A1:String/0 (re.inter D:RegLan/0 E:RegLan/0)))", [f"(not (str.in_re B1:String/0 {p}))", f"(not (str.in_re C1:String/0 {q}))"], sig=RE)
    for x in ["$a:String", "?s:str2"] + (["(str.from_code @L:Int)"]):
        for r in ["(re.* $r:RegLan)", "(re.++ $r:RegLan $q:RegLan)", "(re.++ $r:RegLan $q:RegLan $p:RegLan)", "(re.+ $r:RegLan)", "(re.opt $r:RegLan)", "(re.union $r:RegLan $q:RegLan)"]:
            for lo in ["(<= @L:Int 0)", "(< @L:Int 0)", "(<= @L:Int ?n)", "(< @L:Int ?n)"]:
                for hi in [f"(< (str.len {x}) @L:Int)", f"(<= (str.len {x}) @L:Int)"]:
                    p, q = f"(str.substr {x} 0 @L:Int)", f"(str.substr {x} @L:Int (- (str.len {x}) @L:Int))"
                    for r1, r2 in [("$u:RegLan", "$v:RegLan"), ("$u:RegLan", "(re.* $v:RegLan)"), ("$u:RegLan", "(re.++ $v:RegLan $w:RegLan)"), ("(re.++ $u:RegLan $v:RegLan)", "$w:RegLan")]:
                        c = f"(forall [L:Int] (or {lo} {hi} (not (str.in_re {p} {r1})) (not (str.in_re {q} {r2}))))"
                        for w in [c, f'(and (not (= {x} "")) {c})']:
                            if w == c or r.startswith("(re.*") or t: s("re_unfold_neg", w, [f"(not (str.in_re {x} {r}))"], d=0, sig="sort/>I " + RE)
    atoms = ["(str.to_re ?k:str1)", "(str.to_re ?k:str2)", '(str.to_re "")', "re.allchar", "(re.range ?k:str1 ?m:str1)", "(re.union (str.to_re ?k:str1) (str.to_re ?m:str1))", "(re.union (str.to_re ?k:str1) (str.to_re ?m:str2))", "(re.union (str.to_re ?k:str2) (str.to_re ?m:str1))", "(re.union (str.to_re ?k:str1) (str.to_re ?m:str1) (str.to_re ?n:str2))", "(re.++ (str.to_re ?k:str1) (re.union re.allchar (str.to_re ?m:str2)))", '(str.to_re "é")', '(re.union (str.to_re "é") re.allchar)',
             "(re.union (str.to_re ?k:str1) re.none)", "(re.inter (str.to_re ?k:str1) re.all)", "(re.inter (str.to_re ?k:str2) (str.to_re ?m:str1))", "(re.++ (str.to_re ?k:str1) re.allchar)", "(re.union re.none)", "re.none", "re.all", "(re.* (str.to_re ?k:str1))",
             "(re.union re.none (str.to_re ?k:str1))", "(re.inter re.all (str.to_re ?k:str1))", "(re.union re.all (str.to_re ?k:str1))", "(re.inter re.none (str.to_re ?k:str1))", "(str.to_re $k:String)", "(re.range ?k:str2 ?m:str1)", "(re.opt (str.to_re ?k:str1))", "(re.comp re.allchar)", "$k:RegLan", "(re.diff re.allchar (str.to_re ?k:str1))", "(re.++ re.allchar re.allchar re.allchar)", "(re.++ $k:RegLan re.allchar)"]
    for q in ("prefix", "suffix"):
        for x in ["$a:String"] + (["?s:str2"] if t else []):
            for z in atoms:
                for r in [f"(re.++ {z} $q:RegLan)", f"(re.++ $q:RegLan {z})", f"(re.++ {z} $q:RegLan $p:RegLan)", f"(re.++ $q:RegLan $p:RegLan {z})"]:
                    if r.endswith("$p:RegLan)") == (q == "suffix") and "$p" in r and not t: continue
                    rest = "$w:RegLan" if "$p" not in r else "(re.++ $w:RegLan $x:RegLan)"
                    for a, b in [("0", "?n"), ("?n", f"(- (str.len {x}) ?n)"), (f"(- (str.len {x}) ?n)", "?n"), ("0", f"(- (str.len {x}) ?n)")][:]:
                        other = {"0|?n": [("?n", f"(- (str.len {x}) ?n)")], f"(- (str.len {x}) ?n)|?n": [("0", f"(- (str.len {x}) ?n)")]}.get(a + "|" + b, [("0", "?n")] if t else [])
                        for a2, b2 in other:
                            s("re_unfold_neg_concat_fixed_" + q, f"(or (not (str.in_re (str.substr {x} {a} {b}) {z})) (not (str.in_re (str.substr {x} {a2} {b2}) {rest})))", [f"(not (str.in_re {x} {r}))"], d=0, sig=RE)
    return out


def c15(t):
    "texts with symbolic characters, read by the real lexer and by the reference lexer"
    q = ["~a", "~a~a", "~a~a~a", '"~a~a~a"', '"~a~a~a', '"\\~a~a"', '"\\u~o~a~a', '"\\u~o~a~c"', '"\\u00~h~h"', '"\\u~h041"', '"\\uD~h00"', '"\\ud~hff"', '"\\u~o~h~h~c"', '"\\u~o~hffff~c"', '"\\u~o1~hABC~c"', '"\\u~o000~h~c"',
         '"\\u~o00004~h~c"', '"\\u~a041"', '"\\u004~a"', '"\\u~o4~a~c"', '"\\u~o~c~a"', '"a~3~u~a"', "|~3~u~a|", "~d~d", "~d~d~d~d", "-~d~d", "~d~a", "~d~d~a~a", "~d.~d", "~d~d.~d", "-~d.~d", "~d.~d~a", "~d/~d", "~d~d/2", "-~d/~d", "-~a~a", "~d.~d.~a", "~d/~d/~a", "1~a2~a3",
         "#~a~a~a", "#x~h~h", "#x~h~a~a", "#b~b~b~b~a", "#b~a~a~a", ":~a~a", ":~s~s~s", ";~a~a~nx", ";~a~n~a", "|~a~a|", "|~a~a~a", "x|~a|y", "~s~s~s", "(~a)~a", "x~ay~a", "(x~a(y~a))", "\"~a\"~a", "|~a|~a",
         "~l", "~l~l", "~l~l~l", "~l~l~l~l", "~l~l~l~l~l", "~l~l~l~l~l~l", "~l~l~l~l~l~l~l", "~l~l~l~l~l~l~l~l", "~l~l~l~l~l~l-~l~l~l", "~l~l~l~l~l~l~l-~l~l~l", "declare-~l~l~l~l-~l~l~l~l", "check-sat-assum~l~l~l", "define-~l~l~l-~l~l~l", "define-~l~l~l~l-~l~l~l",
         "cl~s", "~scl", "!~s", "_~s", "as~s", "assum~s", "~sstep", "ste~sp", "forall~s", "let~a~a", "Let~s", "|let|~a", "|~l~l~l|", "~sas"]
    if t:
        q += ["~d/1~d", "~l~l~l~l~l~l~l-~l~l~l~l~l", "~a~a~a~a", "~d~a~a~a", "~d~a~d~a", '"\\u0~h~h~h"', '"\\u~o~h~h~h~c"', '"\\u~o~hA~h~h~h~c"', '"\\u~o~a~a~a', '"\\u~a~a~a', '"\\~a~a~a"', "~d~d.~d~d", "~d~d/~d", "~d/~d~d", "~d.~d~d~d", "#x~h~h~h", "#x~h~h~a", "#b~b~b~b~b~b~b~b", "|~a~a~a|", "~s~s~s~s", ":~s~s~s~s", "\"~a~a~a~a\"", "~l~l~l~l~l~l~l~l~l~l~l~l",
              "(~a~a)~a", "~d~d~d~d~d~d", "-~d~d~a~a", '"~3~u~a~3~u"', '"\\u~o~h~hE9~c~a"', '"\\uD~h~h~h"', "~a;~a~n~a"]
    return [f"mode=lex in={{{x}}}" for x in q]


def c21(t):
    "proofs with unknown characters, printed and read again"
    out = []
    def pr(problem, proof, **k):
        k = "".join(f" {a}={b}" for a, b in k.items())
        out.append(f"mode=print problem={{{problem}}} proof={{{proof}}}{k}")
    H = "(step z (cl) :rule hole)"
    # names: of variables, functions, sorts, commands, bound variables, definitions
    words = ["let", "cl", "as", "match", "forall", "exists", "choice", "lambda", "true", "false", "not", "and", "step", "assume", "anchor", "Bool", "Int", "BitVec", "define-fun", "@d", "ite", "xor", "distinct", "Array"]
    near = []
    for w in words:
        for i in range(len(w) if t else min(len(w), 2)):
            near.append(w[:i] + "~q1" + w[i + 1:])
    for n in ["~q1", "~q1~q2", ""] + (["~q1~q2~q3", "-~q1~q2", "x~q1~q2"] if t else ["-~q1"]) + near:
        pr(f"(declare-fun |{n}| () Bool)", f"(assume h1 |{n}|)(assume h2 (not |{n}|))")
    for n in ["~q1", "", "-~q1", "~q1et"] + (["~q1~q2", "-~q1~q2", "~q1x"] if t else []):
        pr(f"(declare-fun |{n}| (Int) Bool)", f"(assume h1 (|{n}| 1))")
        pr("(declare-fun p () Bool)", f"(assume |{n}| p)(step s (cl p) :rule hole :premises (|{n}|))")
        pr("(declare-fun p () Bool)", f"(step |{n}| (cl p) :rule hole)(step s (cl p) :rule hole :premises (|{n}| |{n}|))")
        pr("(declare-fun p () Bool)", f"(anchor :step t)(assume |{n}| p)(step s (cl p) :rule hole)(step t (cl (not p) p) :rule subproof :discharge (|{n}|))")
        pr("(declare-fun p () Bool)", f"(anchor :step t)(assume a p)(assume |{n}| p)(step s (cl p) :rule hole)(step t (cl (not p) p) :rule subproof :discharge (a |{n}|))")
        pr("(declare-fun p () Bool)", f"(anchor :step |{n}|)(assume a p)(step s (cl p) :rule hole)(step |{n}| (cl (not p) p) :rule subproof :discharge (a))(step r (cl) :rule hole :premises (|{n}|))")
        pr("", f"(assume h (forall ((|{n}| Int)) (= |{n}| 1)))")
        pr("", f"(assume h (exists ((|{n}| Bool) (y Int)) (and |{n}| (= y 1))))")
        pr("", f"(assume h (let ((|{n}| 1)) (= |{n}| 2)))")
        pr("", f"(anchor :step t :args ((|{n}| Int) (y Int) (:= (y Int) |{n}|)))(step u (cl (= y |{n}|)) :rule refl)(step t (cl) :rule hole)")
        pr("", f"(anchor :step t :args ((:= (|{n}| Int) 3)))(step u (cl (= |{n}| 3)) :rule refl)(step t (cl) :rule hole)")
        pr(f"(declare-sort |{n}| 0)(declare-fun x () |{n}|)", f"(assume h (forall ((y |{n}|)) (= y x)))")
        pr(f"(declare-sort |{n}| 1)(declare-fun x () (|{n}| Int))", f"(assume h (forall ((y (|{n}| Int))) (= y x)))")
        pr("", f"(define-fun |{n}| () Int 5)(assume h (= |{n}| 5))(step s (cl (= |{n}| 6)) :rule hole)")
        pr(f"(declare-fun |{n}| () Int)", f"(step s (cl) :rule hole :args (|{n}| 1))")
        pr(f"(declare-fun |{n}| (Int Int) Bool)(declare-fun x () Int)", f"(assume h1 (|{n}| 1 x))", about=1)
        pr(f"(declare-sort |{n}| 0)(declare-fun x () |{n}|)(declare-fun f (|{n}| |{n}|) |{n}|)", f"(assume h1 (= x (f x x)))", about=1)
        pr("(declare-fun p () Bool)", f"(step s (cl p) :rule |{n}|)")
    # literals
    for s in ["~t1", "~t1~t2", "~t1\"\"~t2", "\\u%o~t1%c", "\\u~t1~t2", "\\u%o5c%cu%o~t1%c", "\\u00~d1~d2", "~t1u%o41%c", "\\u%o5c%c~t1"] + (["~t1~t2~t3", "\\u%o5c%c~t1~t2~t3"] if t else []):
        pr("(declare-fun s () String)", f'(assume h (= s "{s}"))')
    for n in ["0", "-0", "12", "-7", "1.5", "0.0", "-2.0", "-2.50", "4/6", "6/3", "-4/6", "-6/3", "(- 3)", "(- 3.0)", "(/ 4.0 6.0)", "(/ 6.0 3.0)", "(/ 1.0 1.0)", "(/ (- 4.0) 6.0)", "(- (/ 4.0 6.0))", "(/ 4 6)", "(/ 2 3)", "(to_real 3)", "(- 1 2)", "(div 7 2)", "#b0110", "#xa7", "(_ bv3 4)", "(_ bv12 5)", "((_ int2bv 4) 9)", "(* 0.5 (- 1/2))"]:
        pr("", f"(assume h (= {n} {n}))")
    # operators
    ops = ["~s1", "~s1~s2"] + (["~s1~s2~s3"] if t else ["b~s1~s2", "~s1nd", "~s1or", "~s1iv"])
    for o in ops:
        for p, a in [("(declare-fun p () Bool)(declare-fun q () Bool)", "p q"), ("(declare-fun p () Int)(declare-fun q () Int)", "p q"), ("(declare-fun p () Real)(declare-fun q () Real)", "p q")][:3 if t or o == "~s1" else 2]:
            for n in (1, 2):
                pr(p, f"(assume h (= ({o} {' '.join(a.split()[:n])}) ({o} {' '.join(a.split()[:n])})))")
    BV = "(declare-fun a () (_ BitVec 4))(declare-fun b () (_ BitVec 4))"
    for o in ["bvadd", "bvsub", "bvmul", "bvneg", "bvnot", "bvand", "bvor", "bvxor", "bvnand", "bvnor", "bvxnor", "bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod", "bvshl", "bvlshr", "bvashr", "bvcomp", "concat", "@bbterm", "ubv_to_int", "sbv_to_int", "bvsize"]:
        for x in ("a", "a b"):
            pr(BV, f"(assume h (= ({o} {x}) ({o} {x})))")
    for o in ["(_ extract 3 1)", "(_ zero_extend 2)", "(_ sign_extend 0)", "(_ repeat 2)", "(_ rotate_left 3)", "(_ rotate_right 1)", "(_ @bit_of 2)", "(_ @int_of 1)"]:
        pr(BV, f"(assume h (= ({o} a) ({o} a)))")
    ST = "(declare-fun s () String)(declare-fun r () RegLan)(declare-fun i () Int)"
    for e in ["(str.++ s s)", "(str.len s)", "(str.at s i)", "(str.substr s i i)", "(str.indexof s s i)", "(str.replace s s s)", "(str.replace_all s s s)", "(str.replace_re s r s)", "(str.from_int i)", "(str.to_int s)", "(str.to_code s)", "(str.from_code i)", "(re.++ r r)", "(re.* r)", "(re.opt r)", "(re.union r r)", "(re.inter r r)", "(re.comp r)", "(re.diff r r)", "(re.range s s)", "(str.to_re s)", "re.none", "re.all", "re.allchar", "((_ re.^ 3) r)", "((_ re.loop 1 2) r)", "(_ char #x4a)"]:
        pr(ST, f"(assume h (= {e} {e}))")
    for e in ["(str.< s s)", "(str.<= s s)", "(str.prefixof s s)", "(str.suffixof s s)", "(str.contains s s)", "(str.is_digit s)", "(str.in_re s r)"]:
        pr(ST, f"(assume h {e})")
    AR = "(declare-fun a () (Array Int Bool))"
    for e in ["(= a (store a 1 true))", "(select a 5)", "(= ((as const (Array Int Bool)) true) a)", "(forall ((b (Array Int (Array Int Bool)))) (= b b))"]:
        pr(AR, f"(assume h {e})")
    BD = "(declare-fun p (Int) Bool)(declare-fun f ((Array Int Int) (_ BitVec 8) Real String) Bool)"
    for e in ["(p (choice ((x Int)) (p x)))", "(= (lambda ((x Int)) (p x)) (lambda ((x Int)) (not (p x))))", "(forall ((x Int) (y Bool)) (exists ((z Real)) (=> y (p x))))", "(let ((x 1) (y 2)) (p (+ x y)))", "(forall ((a (Array Int Int)) (b (_ BitVec 8)) (s String)) (f a b 1.5 s))", "(p (ite (p 1) 2 (- 3)))", "(forall ((~l1 Int) (~l2 Int)) (p (+ ~l1 ~l2)))"]:
        pr(BD, f"(assume h {e})")
    pr("", "(step t (cl (cl)) :rule hole)")
    pr("", "(step t (cl (= (cl true) (cl true))) :rule hole)")
    # sharing: names for what occurs again
    for sh in (0, 1):
        for n in ["p~l1", "p~l1_0", "p_~d1"]:
            pr(f"(declare-fun {n} () Bool)(declare-fun q () Bool)", f"(assume h1 (and (or {n} q) (or {n} q)))(assume h2 (not (and (or {n} q) (or {n} q))))(step t (cl (or {n} q) (not {n})) :rule hole :premises (h1))", share=sh)
        pr("(declare-fun ~l1 () Int)(declare-fun f (Int Int) Int)", "(assume h1 (= (f ~l1 1) (f ~l1 1)))(assume h2 (forall ((~l2 Int)) (= (f ~l1 ~l2) (f (f ~l1 ~l2) (f ~l1 1)))))(assume h3 (forall ((~l2 Int)) (= (f ~l1 ~l2) (f ~l1 1))))", share=sh)
        pr("(declare-fun ~l1 () Int)(declare-fun f (Int Int) Int)", "(anchor :step t :args ((~l2 Int) (:= (~l2 Int) ~l1)))(step u (cl (= (f ~l1 ~l2) (f ~l1 ~l2)) (= (f ~l1 ~l2) (f ~l1 1))) :rule hole)(step t (cl (= (f ~l1 1) (f ~l1 1))) :rule hole)(step v (cl (= (f ~l1 1) (f ~l1 1)) (= (f ~l1 2) 1)) :rule hole)", share=sh)
        pr("(declare-fun a () (Array Int Bool))(declare-fun s () (Array Int Bool))", "(assume h (forall ((b (Array Int Bool))) (= b a)))(assume i (forall ((b (Array Int Bool))) (= b s)))(assume j (= ((_ extract 1 0) #b1010) ((_ extract 1 0) #b1010)))(assume k (= ((_ extract 1 0) #b1010) #b11))", share=sh)
        pr("", "(define-fun c () Int (+ 1 2))(define-fun d () Int (+ (+ 1 2) 3))(assume h (= c d))(assume i (forall ((~l1 Int)) (= ~l1 (+ 1 2))))(step t (cl (= (+ (+ 1 2) 3) (+ (+ 1 2) 3))) :rule hole)", share=sh)
        pr("", "(define-fun c () Bool (forall ((x Int)) (= x 1)))(assume h (not c))(assume i (or (not c) (not c)))(step t (cl (not c) (! c :named q)) :rule hole :args (c (not c)))", share=sh)
        pr("(declare-fun p () Bool)", "(assume h (! (not p) :named ~l1))(step t (cl ~l1 (not ~l1)) :rule hole)(step u (cl (! (and p p) :named ~l2) ~l2 (not ~l1)) :rule hole :args (p 1 ~l2))", share=sh)
    # problems that are printed: their assertions, and what is asked for lia_generic steps
    Z = "(step z (cl) :rule hole)"
    L = "(declare-fun x () Int)(declare-fun f (Int) Int)(declare-fun b () Bool)"
    for sh in (0, 1):
        for n in ["~q1", "", "-~q1", "~q1et", "p_~d1", "p__~d1"] + (["~q1~q2", "-~q1~q2", "p~q1~q2", "p_~d1~d2"] if t else []):
            pr(f"(declare-fun |{n}| () Int)(declare-fun f (Int) Int)(assert (= (f |{n}|) (+ (f |{n}|) 1)))(assert (not (= (f |{n}|) 1)))", Z, share=sh, about=2)
            pr(f"(declare-fun |{n}| () Int)(declare-fun f (Int) Int)", f"(step a (cl (= (f |{n}|) (+ (f |{n}|) 1)) (= (f |{n}|) 1)) :rule lia_generic)" + Z, share=sh, about=3)
            pr(f"(declare-fun |{n}| () Bool)(declare-fun q () Bool)(assert (or |{n}| q))(assert (not (or |{n}| q)))(assert (and (or |{n}| q) |{n}|))", Z, share=sh, about=2)
        for c in ["0", "-7", "(- 7)", "1/2", "-1/2", "2.5", "-2.5", "(/ 1.0 2.0)", "(/ 1.0 3.0)", "6/3", "-6/3", "(- 2.5)", "(/ (- 1.0) 3.0)", "(- 1 2)"]:
            for lo in ["", "(set-logic QF_LRA)"]:
                pr(f"{lo}(assert (= {c} {c}))", Z, share=sh, about=2)
            pr("", f"(step a (cl (= {c} {c}) (not (= {c} {c})) (= {c} {c})) :rule lia_generic)" + Z, share=sh, about=3)
        pr(L, "(step a (cl (<= x 3) (>= x -4) (= (f x) (f (f x)))) :rule lia_generic)(step c (cl (not (<= x 3)) b b) :rule lia_generic)" + Z, share=sh, about=3)
        pr(L, "(step a (cl) :rule lia_generic)(step c (cl (forall ((y Int)) (= (f y) (+ (f x) (f x))))) :rule lia_generic)" + Z, share=sh, about=3)
        pr("(declare-fun a () (Array Int Bool))(assert (= a ((as const (Array Int Bool)) true)))(assert (= ((_ extract 1 0) #b1010) #b11))", Z, share=sh, about=2)
        pr("(define-fun g ((y Int)) Int (+ y 1))(declare-sort S 0)(declare-sort T 2)(declare-fun t () (T S Int))(declare-fun u (S (T Int Int)) Bool)(assert (= (g 1) 2))(assert (forall ((v S) (w (T Int Int))) (u v w)))", Z, share=sh, about=2)
        pr("(declare-fun q () Bool)(declare-fun r () Bool)(assert (or q r))(assert (not (or q r)))(assert (forall ((p_~d1 Bool)) (or p_~d1 (or q r))))", Z, share=sh, about=2)
        pr("(assert (forall ((s String)) (= s \"~t1~t2\")))(assert (exists ((r Real)) (let ((q (+ r 1.5))) (= q r))))", Z, share=sh, about=2)
    return out


TABLE = {"C21": c21, "C15": c15, "C10": c10, "C18": c18, "C19": c19, "C23": c23, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C16": c16, "C17": c17}
LIMITS = {"C21": ((12, 80), (240, 820)), "C18": ((14, 75), (240, 820)), "C15": ((12, 75), (240, 820)), "C10": ((20, 100), (240, 820)), "C23": ((8, 75), (200, 820)), "C16": ((10, 80), (240, 820)), "C17": ((6, 75), (240, 820)), "C06": ((8, 100), (240, 820)), "C02": ((15, 90), (240, 820)), "C03": ((20, 90), (240, 820)), "C04": ((20, 90), (240, 820)), "C05": ((20, 110), (240, 820)), "C09": ((45, 120), (240, 820)), "C12": ((8, 80), (240, 820))}  # property -> ((seconds per job, seconds in all) quick, the same thorough)


def limits(prop, tier):
    q, t = LIMITS.get(prop, ((40, 240), (240, 820)))
    return t if tier == "thorough" else q


def jobs(prop, tier):
    seen, out = set(), []
    for j in TABLE[prop](tier == "thorough"):
        if j not in seen:
            seen.add(j)
            out.append(j)
    return out
