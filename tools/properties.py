#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: `python3 tools/properties.py` in /verif."""
import json, os

SHARED_WHY = ("The unit tests evaluate a few dozen hand-picked expressions; ")

def P(id, title, statement, over_text, why, files, mech, state=(), observe=(), over=("inputs",), hook=None,
      technique=None, note=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=over_text),
                why_tests_cant=SHARED_WHY + why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook),
                technique=technique, note=note)

ALG, ATOM, POLY, RAT, FMT, MAC = ("src/algos.rs", "src/atom.rs", "src/polynomial.rs", "src/rational.rs", "src/sym_fmt.rs", "macros/src/lib.rs")
TREES = "stateless bounded exhaustive exploration of the real code against a reference semantics"
BFS = "exhaustive enumeration of operation sequences to a depth on the real code (explicit-state, reference semantics as model)"
VALUE = ("Equality of values is decided exactly in a prime field for rational functions, and otherwise with interval-like error bounds "
         "at seven fixed points per variable assignment; a difference is reported only when the two error intervals are disjoint.")

PROPS = [
P("C01", "Arithmetic operators and constructors build expressions of the right value",
  "Adding, subtracting, multiplying, dividing, raising to a power and applying an elementary function or constructor to any expressions gives an expression whose value is the result of that operation on the values of the operands. All ways to write the same operation (by value, by reference, assigning, by name, unsimplified) agree in value. An undefined operand or an undefined operation (0/0, 1/0, 0^0) gives the undefined expression and never a number.",
  "all pairs of operand expressions (reduced or not) and all operations, up to the bounds",
  "the special cases of each operator (numbers, zero, one, undefined, sums and products on either side, equal operands, powers of powers) multiply with each other.",
  [ALG, ATOM], [("operators", "src/algos.rs: Expr::add/sub/mul/div/pow, the _raw forms, impl ops::*"), ("constructors", "src/atom.rs: func_constructor!, Expr::exp/log/ln/sqrt"), ("number folding", "src/rational.rs")],
  observe=["the tree of the returned Expr through atom()"], technique=TREES,
  note="Every pair of operands of a pool closed under one and two operators, every operator and every way to write it. " + VALUE),
P("C02", "Simplification to reduced form and sorting preserve the value",
  "Reducing any expression gives an expression with the same value wherever the original is defined, and never panics. An expression of rational numbers and integer powers reduces to that number, and an undefined operand anywhere makes the whole expression undefined. Sorting the operands of an expression changes nothing but their order.",
  "all expression trees up to the bounds, including degenerate ones (empty and one-operand sums and products, nested sums and products, undefined operands)",
  "reduction is a recursive merge of sorted operand lists, where each pair of neighbours may combine, cancel, absorb or reorder.",
  [ALG, ATOM, RAT], [("reduce_rec", "src/algos.rs: Sum::reduce_rec, Prod::reduce_rec"), ("merging", "src/algos.rs: merge_args, flat_merge, add_sorted, mul_sorted"), ("powers and functions", "src/atom.rs: SymbolicExpr::reduce of Pow and Func"), ("sorting", "src/algos.rs: sort_args")],
  observe=["the tree of the returned Expr"], technique=TREES,
  note="All trees of seven alphabets to depth two and three plus families aimed at collection, expansion, fractions, trigonometry and logarithms. " + VALUE),
P("C03", "Reduced form is a normal form: idempotent, order- and grouping-independent",
  "Reducing a reduced expression gives an equal expression. The reduced form of a sum or product does not depend on the order or on the grouping of its operands. In a reduced expression sums and products have at least two operands and no sum stands directly in a sum or product in a product, at most one operand is a number, no operand is a neutral or absorbing element, no two operands could be collected, and no power has exponent 0 or 1.",
  "all expression trees up to the bounds, every permutation of up to four operands and every grouping of three",
  "equality and collection of like terms rely on operand lists being sorted by a total order; an inconsistency shows only for particular combinations in a particular order.",
  [ALG, ATOM], [("merging by order", "src/algos.rs: merge_args, reduce_rec"), ("order", "src/atom.rs: Ord for Expr/Atom/Sum/Prod/Pow")],
  observe=["the trees of the reduced forms"], technique=TREES,
  note="Every tree of the spaces is reduced, reduced again, reversed, permuted and regrouped. Grouping independence makes an exception for several multiples of sums in one sum, which the library deliberately does not distribute."),
P("C04", "Expanding preserves the value and yields a fully expanded form",
  "Expanding an expression, expanding only its main operator, and distributing products over sums keep its value wherever the original is defined, in any sequence of these operations. After expansion of an expression with non-negative integer exponents no product has a sum as a factor and no sum is raised to an integer power above one. The expanded and reduced form of a polynomial has one term per monomial with non-zero coefficient.",
  "all expression trees up to the bounds and all sequences of up to three expanding operations",
  "binomial expansion, fractional parts of exponents, negative exponents and sums that collapse while being multiplied out interact.",
  [ALG], [("expand", "src/algos.rs: Expr::expand, expand_main_op, Pow::expand_pow_rec, Prod::expand_mul"), ("distribute", "src/algos.rs: Prod::distribute, distribute_first"), ("binomials", "src/rational.rs: Int::binomial_coeff")],
  over=("inputs", "histories"), observe=["the tree of the returned Expr"], technique=BFS,
  note="Breadth-first over states reached by the operations from every initial tree; the polynomial clause is decided against an independent exact polynomial arithmetic. " + VALUE),
P("C05", "Fraction operations keep the value and produce proper fractions",
  "The quotient of the numerator and the denominator of any expression has the value of the expression, and neither of the two is itself a fraction. Rationalising, factoring out and cancelling keep the value wherever the original is defined, in any sequence of these operations. After rationalising a rational expression no term of a sum contains a reciprocal or a fraction.",
  "all expression trees up to the bounds and all sequences of up to three operations",
  "nested fractions, sign and numeric content, negative powers of products and terms that cancel to zero combine.",
  [ALG, ATOM], [("numerator, denominator", "src/atom.rs: Expr::numerator, denominator, try_as_div"), ("rationalize", "src/algos.rs: rationalize, rationalize_add"), ("cancel", "src/algos.rs: cancel, factor_out")],
  over=("inputs", "histories"), observe=["the trees of the returned Exprs"], technique=BFS,
  note="Breadth-first over states reached by the operations. The no-fraction clauses apply to expressions without roots of numbers. " + VALUE),
P("C06", "Common factors and factor separation recompose to the original expressions",
  "Splitting two expressions into a common factor and two cofactors gives a factor whose product with each cofactor has the value of the respective expression, and asking only for the common factor returns the same factor. Separating the factors of an expression that depend on a variable from those that do not gives two expressions whose product has the value of the original. The part said to be free of the variable does not contain it, and the other part of a single factor does.",
  "all pairs of expressions of the pool, and all expressions of the spaces with each variable or subexpression, up to the bounds",
  "common factors are searched through numeric content, powers with different exponents, and factors of every term of a sum.",
  [ALG], [("factorisation", "src/algos.rs: factorize_common_terms, common_factors"), ("separation", "src/algos.rs: separate_factors"), ("content", "src/rational.rs: int_gcd")],
  observe=["the trees of the returned Exprs"], technique=TREES, note="All pairs of a pool of some seventy (thorough: several hundred) expressions. " + VALUE),
P("C07", "Trigonometric transformations are identities and remove what they are meant to",
  "Expanding, contracting, substituting and simplifying trigonometric expressions keep the value wherever the original is defined, in any sequence of these operations, and never panic. After expansion of a reduced expression no sine or cosine of a sum or an integer multiple is left. After contraction no product of two sines or cosines and no positive integer power of one is left, and after substitution only sines and cosines are.",
  "all trigonometric expression trees up to the bounds and all sequences of up to three transformations",
  "multiple-angle and power-reduction formulas are recursions over the exponent or the number of terms, with sign, parity and rest cases.",
  [ALG], [("expand_trig", "src/algos.rs: expand_trig, expand_trig_arg, expand_sin_n_times_phi, expand_cos_n_times_phi"), ("contract_trig", "src/algos.rs: contract_trig, contract_trig_arg, contract_trig_pow, contract_trig_prod, separate_sin_cos"), ("substitution", "src/algos.rs: substitute_trig, simplify_trig")],
  over=("inputs", "histories"), observe=["the tree of the returned Expr"], technique=BFS, note="Breadth-first over states reached by the transformations; expressions whose expansion is exponentially large are left out. " + VALUE),
P("C08", "Exponential and logarithmic expansion are identities and expand completely",
  "Expanding exponentials and expanding logarithms keep the value wherever the laws of real powers and logarithms apply, in any sequence, and never panic. After expansion of a reduced expression no exponential of a sum or of an integer multiple, and no natural logarithm of a product or of a power, is left.",
  "all expression trees over e, powers and logarithms up to the bounds and all sequences of up to three transformations",
  "the rules recurse through arguments that are sums of products of logarithms and exponentials themselves.",
  [ALG], [("expand_exponential", "src/algos.rs: expand_exponential, expand_exponential_arg"), ("expand_ln", "src/algos.rs: expand_ln, expand_ln_arg")],
  over=("inputs", "histories"), observe=["the tree of the returned Expr"], technique=BFS, note="Breadth-first over states reached by the transformations; compared at points where all bases and logarithm arguments are positive. " + VALUE),
P("C09", "Derivatives are the mathematical derivatives",
  "The derivative of any expression with respect to a variable has, wherever the expression is differentiable, the value given by the rules of calculus, for every elementary function, power, product and sum, and for higher and mixed derivatives. The derivative of an expression that does not contain the variable is zero, and that of an undefined expression is undefined. Computing it never panics.",
  "all expression trees up to the bounds, all variables of the expression and one that does not occur, first to third derivatives",
  "chain, product and power rule (constant and variable base and exponent) combine with the simplification of their results.",
  [ALG, ATOM], [("derivative", "src/algos.rs: Expr::derivative"), ("functions", "src/atom.rs: Func::derivative")],
  over=("inputs", "histories"), observe=["the tree of the returned Expr"], technique=BFS, note="Compared with an independent textbook rule set that does not simplify, and continued to higher derivatives. " + VALUE),
P("C10", "simplify returns only equivalent forms, cheapest first, without omissions",
  "Every alternative that simplification returns has the value of the original expression wherever that is defined. The alternatives are sorted by their cost, and no two of them are equal. The result of every single transformation that simplification applies to the original is among them.",
  "all expression trees up to the bounds",
  "the alternatives are the closure of eight transformations applied in turn to everything found so far.",
  [ALG], [("search", "src/algos.rs: Expr::simplify"), ("cost", "src/algos.rs: ExprCost")],
  over=("inputs", "histories"), observe=["the returned list"], technique=TREES, note="Restricted to trees on which the search ends quickly: sums in denominators and large angles make it square its intermediate results. Arithmetic beyond 128 bits is noted, not reported. " + VALUE),
P("C11", "Equality, hashing and ordering of expressions are lawful",
  "Two expressions are equal exactly when they are the same up to the order of operands of sums and products; equal expressions have equal hashes and are found in hash sets and ordered sets. The order is total: reflexive, antisymmetric, transitive, consistent with equality, and the same through every comparison operator. Numbers and the constants pi and e compare by their value.",
  "all pairs and all triples of expressions of the pool",
  "laws over pairs and triples; a violation needs three particular expressions.",
  [ATOM], [("equality", "src/atom.rs: PartialEq for Sum, Prod, Expr"), ("order", "src/atom.rs: Sorted, Ord for Atom and Real, Expr::cmp"), ("hash", "src/atom.rs: hash_operands")],
  observe=["==, !=, <, <=, cmp, partial_cmp, hash, HashSet and BTreeSet lookups"], technique="exhaustive enumeration of all pairs and triples of a finite state set on the real code", note="Transitivity over every triple of the pool is complete within the pool; further pairs from a larger pool."),
P("C12", "Predicates, parts and contents agree with the structure of an expression",
  "Every predicate on an expression (is it zero, one, negative, a number, a constant, a variable, a sum, a product, a power, a function ...) is true exactly when the expression is of that kind. The parts an expression is split into (base and exponent, coefficient and rest, operands, sine/cosine factors and others) put together again give the expression. Visiting subexpressions yields exactly the subexpressions, in every order of visiting, also when it is stopped early. The variables of an expression and its being free of another expression are those of its structure.",
  "all expression trees up to the bounds, and all pairs of an expression and a searched subexpression",
  "every predicate and part is a case distinction of its own over all kinds of expressions, including degenerate and unreduced ones.",
  [ATOM, ALG], [("predicates", "src/atom.rs: Expr::is_*"), ("parts", "src/atom.rs: base, exponent, args, rational_coeff, ..."), ("visitors", "src/algos.rs: for_each_compl_sub_expr, try_for_each_compl_sub_expr; src/atom.rs: iter_compl_sub_exprs"), ("containment", "src/atom.rs: free_of, variables")],
  observe=["the returned values and the visited expressions"], technique=TREES, note="Compared with the same notions defined on the reference trees."),
P("C13", "Substitution replaces exactly the occurrences of the pattern",
  "Substituting an expression replaces every occurrence of the pattern, at any depth, by the replacement and changes nothing else. A sequence of substitutions acts one after the other; concurrent substitution replaces all patterns at once, the first matching one winning, and never searches a replacement. The original expression and the arguments are unchanged.",
  "all expression trees up to the bounds, all patterns and replacements of the pool, all lists of up to three substitutions",
  "overlapping patterns, patterns inside replacements, and shared subexpressions need particular combinations.",
  [ALG, ATOM], [("substitution", "src/algos.rs: substitude, seq_substitude, concurr_substitude, try_for_each_compl_sub_expr"), ("matching", "src/atom.rs: PartialEq for Expr"), ("copy on write", "src/atom.rs: Expr::atom_mut")],
  over=("inputs", "histories"), observe=["the tree of the result and of the arguments"], technique=TREES, note="Compared with substitution on the reference trees, operand order disregarded."),
P("C14", "Monomial and polynomial views give the true degrees and coefficients",
  "An expression viewed in a set of variables (symbols or whole subexpressions) is accepted exactly when it is a monomial or polynomial in them with coefficients free of them. Its degree, its degree in each variable, its coefficients, the coefficients and leading coefficient of each variable, and the coefficients of each power are those of the polynomial. Collecting terms gives an expression of the same value with one term per monomial.",
  "all expression trees up to the bounds and all variable sets of the pool, including compound variables",
  "acceptance, degree and coefficients are computed by separate recursions that have to agree for every variable set.",
  [POLY], [("monomials", "src/polynomial.rs: MonomialView"), ("polynomials", "src/polynomial.rs: PolynomialView"), ("power products", "src/polynomial.rs: VarPow, GPE")],
  observe=["every query of the two views"], technique=TREES, note="Compared with an independent exact computation of degrees and coefficients. " + VALUE),
P("C15", "Rational arithmetic is exact",
  "Rational numbers are always in lowest terms with positive denominator, and every operation, comparison, conversion, rounding and predicate on them is the exact mathematical one; powers split into an exact rational and a remaining root whose product is the power. Calculations with rational numbers as expressions give the same results, and dividing by zero gives the undefined expression. The constants pi and e compare correctly with every rational number.",
  "all pairs of rationals up to the bounds, with extreme 128-bit values for the operations that can represent the result",
  "sign, zero, one and non-coprime cases of each operation combine.",
  [RAT, ATOM, ALG], [("rationals", "src/rational.rs: Rational, Int"), ("number folding", "src/algos.rs: Expr::add/mul/div/pow on numbers"), ("comparison of numbers", "src/atom.rs: Ord for Real, Irrational::lower_bound")],
  observe=["the returned numbers"], technique="exhaustive enumeration of operand pairs on the real code against arbitrary-precision arithmetic", note="Every operation on every pair of the grid, compared with num's BigRational; overflow of 128 bits is outside the property."),
P("C16", "A printed expression reads as the expression it was printed from",
  "The printed form of any expression, read with the usual precedences of mathematical notation (powers before signs before products before sums, juxtaposition is a product), denotes that expression: nothing is lost, no parenthesis or multiplication sign is missing where its absence changes the meaning, and two different reduced expressions are never printed alike.",
  "all expression trees up to the bounds, reduced or not",
  "whether a parenthesis, a sign, a fraction bar or a multiplication sign is needed depends on the pair of operators that meet, and on what stands at the edge of the inner one.",
  [FMT, ATOM], [("printer", "src/sym_fmt.rs: SymbolicFormatter"), ("conversion", "src/sym_fmt.rs: FmtAtom, implicit_prefix_mul, implicit_postfix_mul"), ("Display", "src/atom.rs: impl Display for Expr, Func; src/rational.rs")],
  observe=["to_string of the Expr"], technique=TREES, note="The text is read back with an independent grammar and compared with the printed expression structurally, up to the order of operands and the ways to write signs and fractions."),
P("C17", "Stored expressions and numbers come back as they were",
  "Writing any expression or number to a serialised form and reading it back gives an equal expression of identical structure that behaves like the original in comparison, hashing and further calculation. Fractions that are read in are in lowest terms with a positive denominator whatever their written form, and malformed input is rejected with an error and never panics.",
  "all expression trees up to the bounds, all pairs of numerator and denominator of a grid, and malformed variants of stored expressions",
  "a round trip must hold for every shape of expression, and the invariant of fractions for every pair.",
  [ATOM, RAT], [("expressions", "src/atom.rs: derive(Serialize, Deserialize)"), ("fractions", "src/rational.rs: Serialize, Deserialize of Rational")],
  observe=["the stored text and the restored Expr"], technique=TREES, note="Round trips through serde_json, which is the format the repository itself uses in its tests."),
P("C18", "The expr! macro gives notation its usual meaning",
  "An expression written in expr! has the value that the notation has in mathematics: powers before signs before products and quotients before sums and differences, left to right among equals, parentheses override; named functions and constants denote what their names say; every other identifier is the variable of that name. It is the same expression as the one built with the corresponding functions of the library.",
  "every sequence of operators with signs and parentheses up to the bounds, and every function and constant in the contexts listed",
  "precedence and associativity are decided by the combination of neighbouring operators, signs and parentheses.",
  [MAC, ALG], [("parser", "macros/src/lib.rs: Expr::parse_operand, parse_unary_expr, parse_bin_expr"), ("precedence", "macros/src/lib.rs: precedence of operators"), ("code generation", "macros/src/lib.rs: gen_expr_stream")],
  observe=["the value of the macro in a compiled program"], technique="exhaustive enumeration of all token sequences up to a length, expanded and executed by the real macro, against a reference grammar", note="All cases are written into a program, which is compiled and run; its table of results is judged by the reference grammar. " + VALUE),
P("C19", "Expressions are values: no result or change leaks through shared parts",
  "What an operation does depends only on what its operands are, never on how they came about, on the parts they share with each other or with other expressions, or on what was computed before. Assigning operators and changes in place affect only the expression they are applied to: its clones, the expressions it was taken out of and those it was put into stay what they were.",
  "all histories of operations over three expressions that share parts, up to the bounds, and all expression trees with and without shared parts",
  "expressions are reference counted and copied on write; a leak of a change needs a particular history of clones, parts and changes.",
  [ATOM, ALG], [("sharing", "src/atom.rs: Expr::atom: PTR<Atom>, Clone"), ("copy on write", "src/atom.rs: Expr::atom_mut, args_mut"), ("assigning operators", "src/algos.rs: impl ops::*Assign"), ("changes in place", "src/algos.rs: try_for_each_compl_sub_expr, Sum::add_rhs, Prod::mul_rhs")],
  over=("inputs", "histories"), observe=["the trees of all expressions after every step"], technique=BFS, note="Every history is executed on sharing expressions; after every step the target must be what the same step gives on newly built expressions, and every other expression must be unchanged."),
]

NOT_APPLICABLE = []

def main():
    root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
    m = dict(version=1, setup_cmd="bash run.sh build",
             checks=[dict(property=p["id"], quick_cmd=f"bash run.sh check {p['id']} quick", thorough_cmd=f"bash run.sh check {p['id']} thorough",
                          evidence_file=f"evidence/{p['id']}.json", technique="model checking: " + p["technique"], level="model_checking", level_note=p["note"]) for p in PROPS],
             not_applicable=NOT_APPLICABLE,
             notes="No hooks: everything is observed through the public API of the crate.")
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]

main()
