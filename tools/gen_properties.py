#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run to regenerate)."""
import json, os
R="carcara/src/checker/rules/"
P=[]
def p(id,title,statement,over,text,why,files,mech,hook=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=observe or ["verdict of `carcara check` on a problem/proof pair"],hook_needed=hook)))
H="cfg(carcara_sym): lazily materialised terms in ast/rc.rs and a door to the rule functions"
p("C01","Accepted clausification and tautology steps are logical consequences",
 "Whenever the checker accepts a step justified by a propositional clausification or tautology rule (true, false, not_not, and/or/xor/implies/equiv/ite and their negated and _pos/_neg forms, not_and, not_or, ite_intro, connective_def, distinct_elim, nary_elim), the concluded clause is a logical consequence of the step's premise clauses. This holds for any terms the clauses may contain.",
 ["inputs"],"every conclusion clause, premise clauses and arguments, with arbitrary well-sorted subterms",
 "the tests list a few positive and negative examples per rule; soundness is about every clause shape, operand order, polarity and arity that could be accepted.",
 [R+"clausification.rs",R+"tautology.rs"],[("rule functions","checker/rules/{clausification,tautology}.rs"),("rule table","checker/shared.rs")],H)
p("C02","Accepted simplification steps equate semantically equal terms",
 "Whenever the checker accepts a step justified by a rewriting rule for Boolean, equality or if-then-else terms (and/or/not/implies/equiv/bool/ite/eq/qnt_simplify, ac_simp, aci_simp), the two sides of the concluded equality have the same value under every interpretation.",
 ["inputs"],"every pair of terms offered as the two sides of a simplification step",
 "rewrite cascades interact (cycles, duplicates, complementary literals, nesting); tests fix a handful of rewrites.",
 [R+"simplification.rs"],[("simplify driver and per-rule rewrite tables","checker/rules/simplification.rs")],H)
p("C03","Accepted resolution, contraction, tautology steps preserve consequence",
 "Whenever the checker accepts a clause-combination step (resolution and th_resolution with or without pivots, strict_resolution, contraction, tautology, reordering, shuffle, weakening, or, drup/drat-style propagation steps without deletion of needed clauses), the concluded clause is a logical consequence of the premise clauses, for any literals including multiply negated ones.",
 ["inputs"],"all premise clause lists, pivot arguments and conclusion clauses within the stated sizes",
 "the resolution algorithm infers pivots and treats n-fold negation as polarity plus atom; the interaction of duplicate, complementary and doubly negated literals is combinatorial.",
 ["carcara/src/resolution.rs",R+"resolution.rs",R+"extras.rs","carcara/src/drup.rs",R+"drup.rs"],[("greedy and pivot resolution","resolution.rs"),("contraction, tautology","rules/resolution.rs")],H)
p("C04","Accepted equality-reasoning steps are logical consequences",
 "Whenever the checker accepts a step justified by reflexivity, symmetry, transitivity or congruence reasoning (refl, eq_reflexive, eq_symmetric, symm, not_symm, trans, eq_transitive, cong, eq_congruent, eq_congruent_pred, outside or inside a binding context), the concluded clause follows from the premise clauses and the equalities of its context.",
 ["inputs"],"all conclusion clauses and premise lists within the stated sizes, with arbitrary subterms",
 "which premise is consumed for which argument, in which orientation, is a search over all arrangements; tests show a few.",
 [R+"congruence.rs",R+"transitivity.rs",R+"reflexivity.rs",R+"extras.rs"],[("chain building","rules/transitivity.rs"),("premise/argument matching","rules/congruence.rs")],H)
p("C05","Accepted linear-arithmetic steps are valid in arithmetic",
 "Whenever the checker accepts a step justified by an arithmetic rule (la_generic, la_rw_eq, la_disequality, la_totality, la_tautology, la_mult_pos, la_mult_neg, poly_simp, poly_simp_rel, sum/prod/minus/div/mod/comp_simplify), the concluded clause is true for every integer and real value of its variables, given the premises.",
 ["inputs"],"all coefficients, constants, relation symbols, signs and variable values in the stated shapes",
 "validity quantifies over the unbounded integers and reals; tests check a few numeric instances.",
 [R+"linear_arithmetic.rs",R+"extras.rs",R+"polynomial.rs",R+"simplification.rs"],[("LinearComb, strengthen","rules/linear_arithmetic.rs"),("Polynomial","rules/polynomial.rs")],H)
p("C06","Accepted quantifier and subproof steps are logical consequences",
 "Whenever the checker accepts a step about binders or ending a subproof (forall_inst, qnt_join, qnt_rm_unused, qnt_cnf, miniscope rules, bind, let, onepoint, sko_ex, sko_forall, subproof, bind_let, bfun_elim), the conclusion is a logical consequence of the premises, assuming the steps inside the subproof are.",
 ["inputs"],"all binder lists, bodies and contexts in the stated shapes",
 "capture, shadowing and missing-variable cases depend on the coincidence of names that examples rarely have.",
 [R+"quantifier.rs",R+"subproof.rs","carcara/src/ast/context.rs"],[("context stack","ast/context.rs"),("subproof-ending rules","rules/subproof.rs")],H)
p("C07","Accepted bit-blasting steps describe the bit-vector operation",
 "Whenever the checker accepts a bit-blasting step (bitblast_const, var, not, and, or, xor, xnor, comp, ult, slt, add, mult, neg, equal, extract, concat, sign_extend), the concluded equality is true for every value of the bit-vector variables, where the i-th bit of a bit-vector is counted from the least significant one.",
 ["inputs"],"all operand values, operator arities and widths within the stated bounds",
 "tests use one or two widths per operator and accept a proof without evaluating the circuit.",
 [R+"bitvectors.rs"],[("ripple-carry adder, shift-add multiplier, comparison chains","rules/bitvectors.rs")],H)
p("C08","Accepted pseudo-Boolean blasting steps describe the bit-vector operation",
 "Whenever the checker accepts a pseudo-Boolean bit-blasting step (pbblast_bveq, the eight comparison rules, pbblast_pbbvar, pbbconst, bvxor, bvand and their ith_bit forms), the conclusion is true for every value of the bit-vectors involved.",
 ["inputs"],"all operand values and widths within the stated bounds, all admissible coefficient spellings",
 "tests use a few widths; optional coefficients and sign bits multiply the accepted shapes.",
 [R+"pb_blasting.rs"],[("summation splitting and bit checks","rules/pb_blasting.rs")],H)
p("C09","Accepted cutting-planes steps are implied over 0/1 variables",
 "Whenever the checker accepts a cutting-planes step (cp_addition, cp_multiplication, cp_division, cp_saturation, cp_literal, cp_normalize), the concluded pseudo-Boolean inequality holds for every assignment of 0 or 1 to the variables that satisfies the premises.",
 ["inputs"],"all coefficients, constants, literal signs and assignments in the stated shapes",
 "rounding in division and saturation, and cancellation of opposite literals, depend on numeric coincidences over unbounded integers.",
 [R+"cutting_planes.rs"],[("PB inequality parsing and arithmetic","rules/cutting_planes.rs")],H)
p("C10","Accepted string and regular-expression steps are logical consequences",
 "Whenever the checker accepts a string step (concat_eq, concat_unify, concat_conflict, the split/lprop/cprop rules, string_decompose, string_length_pos, string_length_non_empty, re_inter, re_unfold_neg and re_unfold_neg_concat_fixed_prefix/suffix), the conclusion is a logical consequence of its premises in the theory of strings.",
 ["inputs"],"all string terms and constants in the stated shapes",
 "prefix/suffix overlap and constant splitting depend on the particular characters and lengths.",
 [R+"strings.rs"],[("flattening and prefix stripping","rules/strings.rs")],H)
p("C11","Correct steps are accepted",
 "A step that instantiates an Alethe rule exactly as documented is accepted by the checker: the rule's premises, arguments and conclusion schema with any subterms put for the letters of clause rules, and with any distinct atoms put for the letters of rules that rewrite their subterms exhaustively (the *_simplify rules, ac_simp, aci_simp) or compute with them (arithmetic, bit-blasting, cutting planes). It is neither rejected nor does the checker crash on it.",
 ["inputs"],"all instantiations of the documented schemas of the propositional, equality, arithmetic, bit-blasting, pseudo-Boolean and cutting-planes rules",
 "a rule that rejects some valid instance still passes the tests that instantiate it otherwise.",
 [R],[("rule functions","checker/rules/*.rs")],H)
p("C12","Terms identified modulo polyequality or renaming are equal",
 "Two terms are identified by any of the term comparisons (polyequality, alpha-equivalence, modulo n-ary expansion, modulo string concatenation) only if they have the same value under every interpretation; identical terms are always identified, and the comparison never crashes.",
 ["inputs"],"all pairs of terms within the stated depth, including binders with clashing names",
 "the comparison runs on mutually recursive structures with caches and scoped renamings; tests list pairs.",
 ["carcara/src/ast/polyeq.rs"],[("Polyeq, compare_binder, compare_op, DeBruijnMap","ast/polyeq.rs")],H)
p("C13","Substitution is capture-avoiding and respects binders",
 "Applying a substitution to a term yields a term whose value is the original term's value with the substituted variables reinterpreted as their replacements; bound variables are never captured and never replaced, and the reported free variables of a term are exactly those whose interpretation it can depend on syntactically.",
 ["inputs"],"all terms and substitutions within the stated sizes, including shadowing and clashing names",
 "capture requires a coincidence of names among replacement, binder and body.",
 ["carcara/src/ast/substitution.rs","carcara/src/ast/pool/mod.rs"],[("Substitution::apply, rename_binding_list","ast/substitution.rs"),("free_vars","ast/pool/mod.rs")],H)
p("C14","Constant evaluation agrees with the SMT-LIB semantics",
 "Whenever the evaluator gives a value to a ground Boolean, integer, real or bit-vector term (and so whenever the evaluate rule accepts), the value is the one the SMT-LIB standard gives to that term.",
 ["inputs"],"all constant operands in the stated ranges and widths for each supported operator",
 "edge values (division by zero or negative numbers, shifts past the width, sign bits) are rare inputs.",
 ["carcara/src/ast/evaluate.rs",R+"extras.rs"],[("Value and per-operator evaluation","ast/evaluate.rs")],H)
p("C15","Literals are read as the numbers and strings they denote",
 "The lexer assigns to every numeral, decimal, fraction, hexadecimal and binary literal exactly the value and width its characters denote, to every string literal the string its characters and escapes denote, to every symbol, keyword and quoted symbol exactly its characters, and to reserved words (and nothing else) their token; a malformed text is an error, and no ASCII text makes it crash.",
 ["inputs"],"every input text up to the stated number of characters",
 "token boundaries and escapes at every position cannot be sampled.",
 ["carcara/src/parser/lexer.rs"],[("Lexer::next_token","parser/lexer.rs")],None)
p("C16","A proof is accepted only if its structure justifies the conclusion",
 "The checker reports a proof valid only if every assumption outside subproofs is an assertion of the problem, every command passed its rule, and a step outside all subproofs concludes the empty clause; it reports it holey exactly when an accepted step used a rule that asserts without checking; and an unknown rule is rejected unless the configuration allows it.",
 ["inputs","configurations"],"all proofs up to the stated number of commands, with symbolic rule verdicts, names, clauses and configuration flags",
 "the verdict is a function of the whole command history; tests exercise single rules.",
 ["carcara/src/checker/mod.rs","carcara/src/checker/shared.rs"],[("check loop","checker/mod.rs"),("check_assume, check_step_core","checker/shared.rs")],H)
p("C17","Parallel scheduling covers every step after what it depends on",
 "For any proof and any number of threads, the parallel checker's schedules together contain every command of the proof exactly as the sequential checker visits it, and each schedule contains the contexts (anchors and their closing) its steps need, so no step goes unchecked or is checked in the wrong scope.",
 ["inputs","configurations"],"all proof shapes up to the stated size, all premise choices and thread counts",
 "schedules depend on the proof graph and thread count; tests run a few proofs.",
 ["carcara/src/checker/parallel/scheduler.rs","carcara/src/checker/parallel/mod.rs"],[("Scheduler::new, ScheduleIter","checker/parallel/scheduler.rs")],H)
p("C18","Elaboration keeps the proven clauses and yields accepted proofs",
 "Elaborating a proof that the checker accepts never crashes and yields a proof with the same final clause that the checker accepts with the elaborated granularity and that assumes nothing the original did not assume: every step that was replaced is derived, clause for clause, from the same premises by steps that are checked, no step is left out as a hole that was not one before, and the resolution steps in it list the pivots by which their conclusion follows.",
 ["inputs"],"all accepted proofs of the stated shapes for each elaborated rule and pass",
 "elaborations re-derive argument orders, chains and pivots; tests compare a few texts.",
 ["carcara/src/elaborator"],[("elaborator passes and per-rule elaborators","elaborator/*.rs")],H)
p("C19","Slicing keeps a proof of the requested step",
 "A proof slice for a step contains that step with the same clause, rule, premises and arguments, in the same subproofs with the same anchors; every command at most the requested distance of premises, discharged assumptions and subproof ends away is there with its own justification, and everything the commands in it refer to is present before them. Steps whose premises are cut off become holes with the same clause; nothing else of the proof is changed. The slice is a proof that the checker accepts as holey, from the assumptions listed with it, if the checker accepts the whole proof, and it is made without a crash for every step and every distance.",
 ["inputs"],"all proof shapes up to the stated size and every step requested",
 "slices depend on the reference graph.",
 ["carcara/src/slice.rs"],[("slice","slice.rs")],H)
p("C20","Hash-consing and sorts: one object per term, the SMT-LIB sort for each",
 "Two structurally equal terms added to a pool are the same object and unequal ones are different objects, across merged pools; the sort computed for a well-formed term is the one SMT-LIB assigns to its operator and arguments.",
 ["inputs","histories"],"all terms within the stated sizes, all insertion orders",
 "every equality test in the checker relies on it for all terms.",
 ["carcara/src/ast/pool/mod.rs","carcara/src/ast/pool/advanced.rs","carcara/src/ast/pool/storage.rs"],[("Storage::add","ast/pool/storage.rs"),("compute_sort","ast/pool/mod.rs")],None)
p("C21","Printing a term and parsing it back yields the same term",
 "A proof printed by the tool, with or without names for shared terms, and parsed again with the problem's declarations is the same proof: the same commands with the same names, rules, clauses, premises, arguments, discharged assumptions, anchors and definitions, whatever symbols, literals, operators, binders and sorts its terms contain. The declarations it prints for a problem declare the same symbols, and the problems it prints (for a slice, or for a lia_generic step) assert the same terms, up to the way SMT-LIB writes negative numbers and fractions.",
 ["inputs"],"all terms within the stated size, including symbols that need quoting; declared symbols that start with @ are reserved by SMT-LIB and left out",
 "quoting and literal spelling depend on the exact characters.",
 ["carcara/src/ast/printer.rs","carcara/src/parser/mod.rs"],[("AlethePrinter","ast/printer.rs"),("parse_proof, parse_problem","parser/mod.rs")],H)
p("C22","Benchmark statistics are exact",
 "The mean, standard deviation, minimum and maximum reported for a set of measurements are those of the measurements added, in whatever order or grouping they are combined.",
 ["inputs","histories"],"all sequences of durations and all ways to combine them",
 "numerical accumulation over arbitrary histories.",
 ["carcara/src/benchmarking/metrics.rs"],[("Metrics::add_sample, combine","benchmarking/metrics.rs")],None)
p("C23","Running workers in any interleaving gives the sequential verdict",
 "However the operating system interleaves the worker threads of the parallel checker, the verdict (valid, holey or invalid) is the one the sequential checker gives.",
 ["schedules"],"all interleavings of worker threads",
 "thread interleavings are not under the tests' control.",
 ["carcara/src/checker/parallel/mod.rs","carcara/src/ast/pool/advanced.rs"],[("thread scope and result folding","checker/parallel/mod.rs")],None)
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
