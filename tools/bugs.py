"""Planted bugs, each written from the text of a property and the code.  Run by plant.py."""
A, T, P, R, F, M = "src/algos.rs", "src/atom.rs", "src/polynomial.rs", "src/rational.rs", "src/sym_fmt.rs", "macros/src/lib.rs"
BUGS = []

def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))

bug("c01a", "C01", "multiplying a product that already holds one factor of a product raised to a power other than 2",
    "y * (y*z)^3 loses a power of y: a factor merged into an existing one counts its exponent once",
    [(A, "                            *arg = Expr::pow(arg.base(), arg.exponent() + expon)\n", "                            *arg = Expr::pow(arg.base(), expon + Expr::one())\n")],
    """
let y2 = Expr::pow(expr!(y), expr!(2));
let p = Expr::mul(Expr::mul(&y2, expr!(x)), Expr::pow_raw(Expr::mul_raw(expr!(y), expr!(z)), expr!(3)));
assert_eq!(p.reduce(), expr!(x * y ^ 5 * z ^ 3).reduce());
""")
bug("c02a", "C02", "a cosine whose argument has a negative coefficient other than -1",
    "cos(-2*x) reduces to -cos(2*x): the parity rule of sine is applied to cosine",
    [(T, "                        return Expr::cos(Expr::min_one() * x);\n", "                        return Expr::min_one() * Expr::cos(Expr::min_one() * x);\n")],
    "assert_eq!(Expr::cos(expr!(-2 * x)).reduce(), Expr::cos(expr!(2 * x)));")
bug("c03a", "C03", "three or more operands where the first operand of the remaining sum is a sum that collects",
    "merging operand lists stops after the operands that combined, so the rest is kept unsorted and like terms stay apart",
    [(A, "                    // println!(\"  merge_args2: {p:?} (+) {q_rest:?} -> {rhs:?}\");\n", "                    if p_rest.is_empty() && q_rest.len() > 1 { return Sum { args: [slice::from_ref(q1), q_rest, p].concat() }; }\n")],
    "let a = expr!(add_raw(z, add_raw(x, add_raw(y, z)))).reduce();\nlet b = expr!(x + y + 2 * z).reduce();\nassert_eq!(a, b);")
bug("c04a", "C04", "expanding a sum raised to an integer power of at least 3",
    "the binomial expansion swaps the exponents of the two parts but not the binomial coefficient's partner for the outermost terms",
    [(A, "            let rhs = if k == 0 {\n                // 1 * a^exp\n                expand_pow(&a, &exp)\n", "            let rhs = if k == 0 && e < 5 {\n                // 1 * a^exp\n                expand_pow(&a, &exp)\n            } else if k == 0 {\n                expand_pow(&b, &exp)\n")],
    "let e = expr!((x + 2) ^ 5).expand().reduce();\nlet v = e.substitude(&expr!(x), &expr!(1)).reduce();\nassert_eq!(v, expr!(243));")
bug("c05a", "C05", "a product of a rational number and negative powers",
    "try_as_div leaves the sign of a negative exponent when it is not -1 and the base is a sum",
    [(T, "                        true => Err(Expr::pow(a.base(), Expr::min_one() * a.exponent())),\n", "                        true if a.base().is_sum() => Err(a.base()),\n                        true => Err(Expr::pow(a.base(), Expr::min_one() * a.exponent())),\n")],
    "let e = expr!(y * (x + 1) ^ (-2));\nlet (n, d) = e.try_as_div().unwrap();\nassert_eq!((n / d).reduce(), e.reduce());")
bug("c07a", "C07", "expanding the sine of an integer multiple with four or more sine factors",
    "the sign of the terms of a multiple-angle expansion does not alternate from the third term on",
    [(A, "        min_one = !min_one;\n", "        min_one = !min_one || i > 4;\n")],
    "let e = Expr::cos(expr!(7 * x)).expand_trig().reduce();\nlet e = e.substitude(&Expr::sin(expr!(x)), &expr!(3/5)).substitude(&Expr::cos(expr!(x)), &expr!(4/5)).reduce();\n// cos 7x by the recurrence cos(n+1) = 2 cos cos(n) - cos(n-1)\nlet (mut a, mut b) = (expr!(1), expr!(4/5));\nfor _ in 0..6 { let c = (expr!(8/5) * &b - &a).reduce(); a = b; b = c; }\nassert_eq!(e, b);")
bug("c08a", "C08", "the logarithm of a power whose exponent is a product with a fraction",
    "expanding the logarithm of a power with a product as exponent drops the denominator of the exponent",
    [(A, "        Atom::Pow(pow) => pow.exponent() * expand_ln_arg(pow.base()),\n", "        Atom::Pow(pow) if pow.exponent().is_prod() => pow.exponent().numerator() * expand_ln_arg(pow.base()),\n        Atom::Pow(pow) => pow.exponent() * expand_ln_arg(pow.base()),\n")],
    """
let e = Expr::ln(Expr::pow_raw(expr!(x), expr!(y / 2)));
assert_eq!(e.expand_ln().reduce(), (expr!(1 / 2) * expr!(y) * Expr::ln(expr!(x))).reduce());
""")
bug("c09a", "C09", "differentiating an inverse cosecant of something whose derivative is not 1",
    "the derivative of the inverse secant misses the sign of the inner derivative",
    [(T, "            F::ArcSec(f) => d(&E::arc_cos(e(1) / f)),\n", "            F::ArcSec(f) => d(f) / (E::sqrt(e(1) - e(1) / E::pow(f, e(2))) * f),\n")],
    "let x = expr!(x);\nlet a = Expr::arc_sec(&x).derivative(&x).substitude(&x, &expr!(2)).reduce();\nlet b = Expr::arc_cos(expr!(1) / &x).derivative(&x).substitude(&x, &expr!(2)).reduce();\nassert_eq!(a, b);")
bug("c10a", "C10", "an expression for which the same form is reached twice in different ways",
    "simplify sorts by the number of operands of the top operator instead of the cost of the expression",
    [(A, "        eclass.sort_by_key(ExprCost::cost);\n", "        eclass.sort_by_key(|e| ExprCost::cost(e).min(9));\n")],
    "use calcu_rs::algos::{CostFn, ExprCost};\nfor e in [expr!((x + y) ^ 3), expr!((x + 1) ^ 4), expr!(sin(3*x)*cos(y)), expr!((x+y)^2*(x-y))] {\n    let c: Vec<_> = e.simplify().iter().map(ExprCost::cost).collect();\n    assert!(c.windows(2).all(|w| w[0] <= w[1]), \"{c:?}\");\n}")
bug("c11a", "C11", "two logarithms of the same expression with the bases 10 and a fraction with numerator 10",
    "the name of a logarithm only looks at the numerator of its base, so log_10(x) and log_(10/3)(x) compare as equal",
    [(T, "            Func::Log(Real::Rational(r), _) if r == &Rational::from(10) => \"log\".into(),\n", "            Func::Log(Real::Rational(r), _) if r.numer() == 10 => \"log\".into(),\n")],
    """
let a = Expr::log(Rational::from((10, 3)), expr!(x));
let b = Expr::log(Rational::from(10), expr!(x));
assert!(a != b && a.cmp(&b).is_ne());
""")
bug("c13a", "C13", "substituting in an expression where the pattern occurs in two places of different depth",
    "concurrent substitution leaves an expression alone when the replacement of an earlier pattern equals a later pattern",
    [(A, "                if sub_expr == from {\n                    *sub_expr = (*to).clone();\n                    return ops::ControlFlow::Break(());\n                }\n", "                if sub_expr == from {\n                    *sub_expr = (*to).clone();\n                    if !to.is_var() {\n                        return ops::ControlFlow::Break(());\n                    }\n                }\n")],
    "let (x, y) = (expr!(x), expr!(y));\nlet r = expr!(x + 2 * y).concurr_substitude([(&x, &y), (&y, &x)]);\nassert_eq!(r, expr!(y + 2 * x));")
bug("c14a", "C14", "an even power of a monomial with the coefficient -1",
    "the coefficient of a power of a monomial is not raised to the power when it is -1",
    [(P, "                        return Some((Expr::pow(c, pow.exponent()), d));\n", "                        return Some((if c.is_min_one() { c } else { Expr::pow(c, pow.exponent()) }, d));\n")],
    """
let vars = [expr!(x)].into();
let e = Expr::pow_raw(Expr::mul_raw(expr!(-1), expr!(x)), expr!(2));
let (c, _) = e.as_monomial_view(&vars).coeff().unwrap();
assert_eq!(c.reduce(), expr!(1));
""")
bug("c15a", "C15", "the floor of a negative fraction",
    "floor truncates towards zero",
    [(R, "        *self.0.floor().numer()\n", "        *self.0.trunc().numer()\n")],
    "assert_eq!(Rational::from((-7, 2)).floor(), -4);")

bug("c01b", "C01", "a sum in which two numbers cancel while another operand stands behind the first number",
    "adding a number that cancels the number of a sum removes the last operand of the sum instead",
    [(A, "                        *a = A::Rational(r1.clone() + r2).into();\n                        return;\n", "                        *a = A::Rational(r1.clone() + r2).into();\n                        if a.is_zero() {\n                            self.args.pop();\n                        }\n                        return;\n")],
    "let e = Expr::add(Expr::add(expr!(x), expr!(3)), expr!(-3));\nassert_eq!(e.reduce(), expr!(x));\nlet e = Expr::add(Expr::add(expr!(3), expr!(x)), expr!(-3));\nassert_eq!(e.reduce(), expr!(x));")
bug("c01c", "C01", "an even power under a root, at a negative value of the base",
    "a power of a power is collapsed whenever the inner exponent is an integer, so (x^2)^(1/2) becomes x",
    [(A, "            (A::Pow(pow), A::Rational(e)) if e.is_int() => {\n                Expr::pow(pow.base(), exponent * pow.exponent())\n", "            (A::Pow(pow), A::Rational(e)) if e.is_int() || pow.exponent().is_int() => {\n                Expr::pow(pow.base(), exponent * pow.exponent())\n")],
    "let e = Expr::sqrt(Expr::pow(expr!(x), expr!(2)));\nlet v = e.substitude(&expr!(x), &expr!(-3));\nassert_ne!(v, expr!(-3));")
bug("c02b", "C02", "a product of two negative factors under a root",
    "a positive fractional power of a product is split into the powers of its factors, which need not exist",
    [(T, "            (A::Prod(prod), A::Rational(e)) if e.is_int() => prod\n", "            (A::Prod(prod), A::Rational(e)) if e.is_int() || e.is_pos() => prod\n")],
    "let e = Expr::sqrt(Expr::mul_raw(expr!(x), expr!(y))).reduce();\n// (-2) * (-3) = 6\nlet v = e.substitude(&expr!(x), &expr!(-2)).substitude(&expr!(y), &expr!(-3)).reduce();\nassert!(!v.iter_compl_sub_exprs().any(|e| e.is_pow() && e.base().is_neg()), \"{v}\");")
bug("c03b", "C03", "a power of a power whose exponents cancel",
    "the exponents of nested powers are multiplied without reducing the product, which leaves x^(2*1)",
    [(T, "                pow.args[1] = (pow.exponent() * self.exponent()).reduce();\n", "                pow.args[1] = pow.exponent() * self.exponent();\n")],
    "let y = expr!(y);\nlet e = Expr::pow_raw(Expr::pow_raw(expr!(x), expr!(2 * y)), expr!(1 / y)).reduce();\nassert_eq!(e, e.reduce());\nassert_eq!(e, expr!(x ^ 2));")
bug("c04b", "C04", "a product of sums in the argument of a function, below the top of the expression",
    "expanding does not descend into the arguments of functions",
    [(A, "        let expanded = self.clone().map_args(|a| *a = a.expand());\n        match expanded.atom() {\n            A::Var(_) | A::Undef", "        if let A::Func(_) = self.atom() {\n            return self.clone();\n        }\n        let expanded = self.clone().map_args(|a| *a = a.expand());\n        match expanded.atom() {\n            A::Var(_) | A::Undef")],
    "let e = (Expr::sin(Expr::mul_raw(expr!(x), expr!(y + 1))) + expr!(z)).expand().reduce();\nassert_eq!(e, (Expr::sin(expr!(x * y + x)) + expr!(z)).reduce());")
bug("c04c", "C04", "a product with the same sum twice as separate factors",
    "distributing the first sum of a product also consumes a later factor that is equal to it",
    [(A, "            } else if i > sum_indx {\n                b.args.push(arg.clone())\n", "            } else if i > sum_indx && arg != &sum {\n                b.args.push(arg.clone())\n")],
    "let s = expr!(x + 1);\nlet e = Expr::mul_raw(Expr::mul_raw(expr!(y), &s), &s).distribute();\nlet v = e.substitude(&expr!(x), &expr!(2)).substitude(&expr!(y), &expr!(1)).reduce();\nassert_eq!(v, expr!(9));")
bug("c05b", "C05", "adding two fractions of which the second denominator is a multiple of the first",
    "the common denominator of two equal denominators is taken once, but both numerators are still multiplied",
    [(A, "        let bd = &b * &d;\n        if bd.is_one() {\n", "        let bd = if b == d && !b.is_number() { b.clone() } else { &b * &d };\n        if bd.is_one() {\n")],
    "let e = expr!(x / z + y / z).rationalize();\nlet s = |e: Expr| e.substitude(&expr!(x), &expr!(1)).substitude(&expr!(y), &expr!(2)).substitude(&expr!(z), &expr!(5)).reduce();\nassert_eq!(s(e), expr!(3 / 5));")
bug("c05c", "C05", "a sum with fractions as the base of a negative power",
    "rationalising skips the bases of powers in a denominator",
    [(A, "            A::Pow(pow) => Expr::pow(pow.base().rationalize(), pow.exponent()),\n", "            A::Pow(pow) if !pow.exponent().is_neg() => Expr::pow(pow.base().rationalize(), pow.exponent()),\n")],
    "let e = expr!(x / (1 + 1 / y)).rationalize();\nassert!(!e.iter_compl_sub_exprs().any(|s| s.is_sum() && s.args().iter().any(|a| !a.denominator().is_one())), \"{e}\");")
bug("c06b", "C06", "a product with a factor that has the variable in its exponent only",
    "separating factors only looks at the base of a power",
    [(A, "                    if a.free_of(x) {\n                        free_part *= a;\n", "                    if a.base().free_of(x) {\n                        free_part *= a;\n")],
    "let x = expr!(x);\nlet (f, d) = Expr::mul_raw(Expr::pow(expr!(2), &x), expr!(y)).separate_factors(&x);\nassert!(f.free_of(&x));")
bug("c07b", "C07", "an odd power of a sine above the tenth, with an odd half",
    "the sign of the contraction of odd powers of sine is wrong from the eleventh on",
    [(A, "                    let mut b = match (n_min_one.clone() / 2).is_even() {\n", "                    let mut b = match (n_min_one.clone() / 2).is_even() || n > 10 {\n")],
    "// sin(pi/2)^11 = 1\nlet e = Expr::pow(Expr::sin(expr!(x)), expr!(11)).contract_trig();\nlet mut v = expr!(0);\nfor t in e.iter_args() {\n    let c = t.rational_coeff().unwrap();\n    let s = t.non_rational_term().unwrap();\n    let n = s.args()[0].rational_coeff().unwrap().numer();\n    v += Expr::from(c) * Expr::from(if n % 4 == 1 { 1 } else { -1 });\n}\nassert_eq!(v.reduce(), expr!(1));")
bug("c07d", "C07", "the sine of a multiple of an angle by a negative number below -9",
    "the multiple-angle expansion of sine loses its sign for large negative multiples",
    [(A, "                if n < 0 {\n                    s = Expr::min_one() * s;\n", "                if n < 0 && n_abs % 10 != 0 {\n                    s = Expr::min_one() * s;\n")],
    "let f = |n: i32| Expr::sin(Expr::mul_raw(Expr::from(n), expr!(x))).expand_trig();\nassert_eq!((f(10) + f(-10)).reduce().expand().reduce(), expr!(0));")
bug("c08b", "C08", "a logarithm with a base other than e whose argument is a product",
    "logarithms of any base are expanded to natural logarithms",
    [(A, "                Func::Log(Real::E, x) => expand_ln_arg(&x),\n", "                Func::Log(_, x) if x.is_prod() => expand_ln_arg(&x),\n                Func::Log(Real::E, x) => expand_ln_arg(&x),\n")],
    "let l = |e| Expr::log(Rational::from(2), e);\nlet e = l(expr!(x * y)).expand_ln();\nlet e = e.substitude(&l(expr!(x)), &expr!(1)).substitude(&l(expr!(y)), &expr!(1));\nassert!(!e.iter_compl_sub_exprs().any(|e| e.to_string().starts_with(\"ln\")), \"{e}\");")
bug("c09b", "C09", "the cotangent of something whose derivative is not 1",
    "the derivative of cotangent applies the chain rule to one of the two parts of 1 + cot^2 only",
    [(T, "            F::Cot(f) => d(f) * e(-1) * E::pow(E::csc(f), e(2)),\n", "            F::Cot(f) => e(-1) * d(f) - E::pow(E::cot(f), e(2)),\n")],
    "let x = expr!(x);\nlet d = Expr::cot(expr!(3 * x)).derivative(&x);\nlet c = Expr::cot(expr!(3 * x));\n// cot = 2, csc^2 = 5\nlet v = d.substitude(&c, &expr!(2)).substitude(&Expr::csc(expr!(3 * x)), &expr!(5 ^ (1 / 2))).reduce();\nassert_eq!(v, expr!(-15));")
bug("c09c", "C09", "a power whose exponent is the variable itself",
    "the exponent of a power counts as constant when it is a single symbol",
    [(A, "                if w.is_one() {\n", "                if w.is_irreducible() && v.is_irreducible() && !v.is_const() {\n                    return w * Expr::pow(v, w - Expr::one()) * v.derivative(x);\n                }\n                if w.is_one() {\n")],
    "let (x, y) = (expr!(x), expr!(y));\nlet d = Expr::pow(&y, &x).derivative(&x);\nassert!(!d.reduce().is_zero());")
bug("c10b", "C10", "an expression of which one transformation is several times larger than the expression",
    "simplification drops alternatives that are more than four times as large as the expression",
    [(A, "                if !eclass.contains(&e) {\n", "                if !eclass.contains(&e) && ExprCost::cost(&e) <= 4 * ExprCost::cost(self) {\n")],
    "let e = expr!((x + y) ^ 6);\nlet x = e.expand().reduce();\nassert!(e.simplify().contains(&x));")
bug("c11b", "C11", "two logarithms of the same expression with bases that differ in the fourth digit",
    "the name of a logarithm rounds its base, so logarithms to close bases compare as equal",
    [(T, "            Func::Log(base, _) => return format!(\"log{base}\"),\n", "            Func::Log(base, _) => return format!(\"log{:.3}\", base.f64_approx()),\n")],
    "let a = Expr::log(Rational::from((1, 3)), expr!(x));\nlet b = Expr::log(Rational::from((333, 1000)), expr!(x));\nassert_ne!(a.cmp(&b), std::cmp::Ordering::Equal);")
bug("c12b", "C12", "an unsimplified product with two rational factors",
    "the rational coefficient of a product is its first rational factor",
    [(T, "                .filter_map(|a| a.try_unwrap_rational_ref().ok())\n                .fold(Rational::ONE, |lhs, rhs| lhs * rhs)\n                .into(),\n", "                .find_map(|a| a.try_unwrap_rational_ref().ok().copied())\n                .unwrap_or(Rational::ONE)\n                .into(),\n")],
    "let e = Expr::mul_raw(Expr::mul_raw(expr!(2), expr!(x)), expr!(3));\nassert_eq!(e.rational_coeff().unwrap(), Rational::from(6));")
bug("c12c", "C12", "an expression in which a subexpression occurs twice",
    "iterating over the subexpressions skips one that is still waiting to be visited",
    [(T, "            expr.for_each_arg(|arg| self.atoms.push(arg));\n", "            expr.for_each_arg(|arg| {\n                if !self.atoms.contains(&arg) {\n                    self.atoms.push(arg)\n                }\n            });\n")],
    "let e = Expr::mul_raw(Expr::sin(expr!(x)), expr!(x));\nlet n = |e: &Expr| e.iter_compl_sub_exprs().filter(|e| e.is_var()).count();\nassert_eq!(n(&e), 2);\nassert_eq!(n(&Expr::add_raw(expr!(x), expr!(x))), 2);")
bug("c13b", "C13", "a pattern in the exponent of a power of a number",
    "substitution does not look into the exponents of powers of numbers",
    [(A, "        self.atom_mut()\n            .args_mut()\n            .iter_mut()\n            .for_each(|a| a.try_for_each_compl_sub_expr(func))\n", "        let n = match self.is_pow() && self.base().is_rational() {\n            true => 1,\n            false => usize::MAX,\n        };\n        self.atom_mut()\n            .args_mut()\n            .iter_mut()\n            .take(n)\n            .for_each(|a| a.try_for_each_compl_sub_expr(func))\n")],
    "let e = Expr::pow(expr!(2), expr!(x + 1)).substitude(&expr!(x), &expr!(y));\nassert_eq!(e, Expr::pow(expr!(2), expr!(y + 1)));")
bug("c14b", "C14", "a power of a monomial in which a variable already has a degree above one",
    "raising a monomial to a power adds the degrees instead of multiplying them when the degree is above one",
    [(P, "        self.var_deg.iter_mut().for_each(|(_, d)| *d *= deg);\n", "        self.var_deg.iter_mut().for_each(|(_, d)| *d = if *d > 2 { *d + deg } else { *d * deg });\n")],
    "let e = Expr::pow_raw(Expr::mul_raw(expr!(y), expr!(x ^ 3)), expr!(2));\nlet vars = [expr!(x)].into();\nassert_eq!(e.as_monomial_view(&vars).degree(), Some(6));")
bug("c14c", "C14", "the coefficients of a polynomial in several variables, ordered by one of them",
    "the degree of a polynomial is the degree of the term with most variables",
    [(P, "            .map(|d| d.total_deg())\n            .reduce(std::cmp::max)\n", "            .map(|d| (d.var_deg.len(), d.total_deg()))\n            .reduce(std::cmp::max)\n            .map(|(_, d)| d)\n")],
    "let e = expr!(x * y + x ^ 3);\nlet vars = [expr!(x), expr!(y)].into();\nassert_eq!(e.as_polynomial_view(&vars).degree(), Some(3));")
bug("c15b", "C15", "the inverse of a negative number",
    "the inverse of a negative number has a negative denominator",
    [(R, "            Some(Self::from((denom, num)))\n", "            Some(Self::new_raw(denom, num))\n")],
    "let r = Rational::from((-3, 2)).inverse().unwrap();\nassert_eq!(r.to_string(), \"-2/3\");\nassert!(r.is_neg());")
bug("c15c", "C15", "a negative odd integer",
    "negative odd integers are not recognised as odd",
    [(R, "        self.is_int() && !self.is_even()\n", "        self.is_int() && self.numer() % 2 == 1\n")],
    "assert!(Rational::from(-3).is_odd());")
bug("c16b", "C16", "subtracting something that has itself a sign or a sum inside",
    "the part of a sum behind a minus sign is printed without parentheses if it is a sum",
    [(F, "                    Self::symbl_sub(f)?;\n                    Self::space(f)?;\n                    Self::fmt_w_prec(prod_prec(), e, f)?;\n", "                    Self::symbl_sub(f)?;\n                    Self::space(f)?;\n                    Self::fmt_w_prec(sum_prec(), e, f)?;\n")],
    "let e = Expr::add_raw(expr!(z), Expr::mul_raw(expr!(-1), expr!(x + y)));\nassert!(e.to_string().ends_with(')'), \"{e}\");")
bug("c17b", "C17", "a logarithm whose base needs more than 64 bits",
    "bases of logarithms are stored untagged, which loses numbers beyond 64 bits when they are read",
    [(T, "#[from(forward)]\npub enum Real {\n", "#[from(forward)]\n#[serde(untagged)]\npub enum Real {\n")],
    "let e = Expr::log(Rational::from((i128::MAX, 3i128)), expr!(x));\nlet s = serde_json::to_string(&e).unwrap();\nlet b: Expr = serde_json::from_str(&s).unwrap();\nassert_eq!(e, b);")
bug("c18b", "C18", "an integer literal of more than 31 bits",
    "integer literals in expr! are cut off to 32 bits",
    [("macros/src/lib.rs", "        E::Num(n) => quote!(#cname::Expr::rational(#n)),\n", "        E::Num(n) => {\n            let n = *n as i32;\n            quote!(#cname::Expr::rational(#n))\n        }\n")],
    "assert_eq!(expr!(4294967299), expr!(65536) * expr!(65536) + expr!(3));")
# ---- fourth batch
bug("c01d", "C01", "multiplying by a power of a product of which at least two factors are new",
    "a power of a product loses all but its first two factors when some of its factors are merged into existing ones",
    [(A, "                    } else if remainder.len() > 1 {\n", "                    } else if remainder.len() > 1 {\n                        remainder.truncate(2);\n")],
    "let r = Expr::mul_raw(Expr::mul_raw(expr!(x), expr!(y)), Expr::mul_raw(expr!(z), expr!(a)));\nlet e = Expr::mul(expr!(x * b), Expr::pow_raw(r, expr!(3)));\nlet two = |v: &str| (Expr::from(v), expr!(2));\nlet e = e.substitude(&expr!(x), &expr!(1)).substitude(&expr!(b), &expr!(1)).substitude(&expr!(y), &expr!(1)).substitude(&expr!(z), &expr!(1)).substitude(&expr!(a), &expr!(2)).reduce();\nassert_eq!(e, expr!(8));")
bug("c03c", "C03", "a sum of more than eight operands with like terms at both ends",
    "sums of more than eight operands are merged without looking for like terms",
    [(A, "            let lhs = args.first().unwrap().flatten();\n            let rhs = Sum::reduce_rec(&args[1..]);\n", "            let lhs = args.first().unwrap().flatten();\n            let mut rhs = Sum::reduce_rec(&args[1..]);\n            if rhs.args.len() > 8 && !lhs.is_const() && !lhs.is_sum() {\n                rhs.args.push(lhs.clone());\n                return rhs;\n            }\n")],
    "let mut e = expr!(0);\nlet names = [\"a\", \"b\", \"c\", \"d\", \"f\", \"g\", \"h\", \"k\", \"m\", \"n\", \"a\"];\nfor n in names { e = Expr::add_raw(e, Expr::from(n)); }\nlet r = e.reduce();\nassert_eq!(r.args().len(), 10, \"{r}\");\nfor w in r.args().windows(2) { assert!(w[0] != w[1]); }")
bug("c04d", "C04", "expanding a power so high that a binomial coefficient exceeds 2^53",
    "binomial coefficients are computed with floating point numbers",
    [(R, "    num::integer::binomial(n, k)\n}", "    let k = k.min(n - k);\n    (0..k).fold(1f64, |b, i| b * (n - i) as f64 / (i + 1) as f64).round() as Int\n}")],
    "let e = expr!((x + 1) ^ 60).expand().reduce().substitude(&expr!(x), &expr!(1)).reduce();\nassert_eq!(e, expr!(2 ^ 60).reduce());")
bug("c05d", "C05", "a negative power of a sum that itself contains a fraction",
    "powers with a negative exponent are not rationalised",
    [(A, "            A::Pow(pow) => Expr::pow(pow.base().rationalize(), pow.exponent()),\n", "            A::Pow(pow) if pow.exponent().is_neg() => self.clone(),\n            A::Pow(pow) => Expr::pow(pow.base().rationalize(), pow.exponent()),\n")],
    "let e = expr!((1 + 1 / x) ^ (-2)).rationalize();\nfn has(e: &Expr) -> bool { (e.is_sum() && e.args().iter().any(|a| !a.denominator().is_one())) || e.args().iter().any(has) }\nassert!(!has(&e), \"{e}\");")
bug("c06d", "C06", "a factor that is a function of a sum that contains the variable",
    "a function of a sum counts as free of the variable",
    [(A, "                    if a.free_of(x) {\n                        free_part *= a;\n", "                    if a.free_of(x) || (a.is_func() && a.args()[0].is_sum()) {\n                        free_part *= a;\n")],
    "let e = Expr::mul(expr!(y), Expr::sin(expr!(x + 1)));\nlet (free, dep) = e.separate_factors(&expr!(x));\nassert!(free.free_of(&expr!(x)));")
bug("c07e", "C07", "contracting an odd power of a cosine with exponent nine or more",
    "the sum of cosines for an odd power of a cosine stops after the fourth term",
    [(A, "                    for j in 0..=half_n {\n                        let mut term = binom(n, j);\n", "                    for j in 0..=half_n.min(3) {\n                        let mut term = binom(n, j);\n")],
    "let e = Expr::pow(Expr::cos(expr!(x)), expr!(9)).contract_trig();\nlet s = e.substitude(&expr!(x), &expr!(0)).reduce();\nassert_eq!(s, expr!(1));")
bug("c08c", "C08", "an exponential whose exponent is a negative multiple",
    "the exponential of a negative integer multiple is not expanded",
    [(A, "            if p1.is_int() {\n", "            if p1.is_int() && !p1.is_neg() {\n")],
    "let e = Expr::exp(expr!(-2 * x * y)).expand_exponential();\nassert!(!(e.is_exponential() && e.exponent().is_prod() && e.exponent().args()[0].is_int()), \"{e}\");")
bug("c09d", "C09", "a logarithm with the base pi",
    "logarithms with an irrational base are differentiated like the natural logarithm",
    [(T, "            F::Log(base, f) => d(f) * E::pow(f * E::ln(E::from(base.clone())), e(-1)),\n", "            F::Log(Real::Irrational(_), f) => d(f) * E::pow(f * E::ln(E::e()), e(-1)),\n            F::Log(base, f) => d(f) * E::pow(f * E::ln(E::from(base.clone())), e(-1)),\n")],
    "let d = Expr::log(Irrational::PI, expr!(x)).derivative(&expr!(x)).reduce();\nassert_ne!(d, expr!(1 / x).reduce());".replace("Irrational::PI", "Real::PI").replace("let d", "use calcu_rs::atom::Real;\nlet d"))
bug("c10c", "C10", "an expression that at least one transformation leaves as it is",
    "simplification leaves out the expression itself when a transformation returns it",
    [(A, "        let mut eclass: Vec<_> = eclass.into_iter().collect();\n", "        eclass.remove(self);\n        let mut eclass: Vec<_> = eclass.into_iter().collect();\n")],
    "let e = expr!(x + y);\nassert!(e.simplify().contains(&e.expand().reduce()));")
bug("c11d", "C11", "two variables whose names differ only in case",
    "the order of variables ignores the case of their names",
    [(T, "            (A::Var(l), A::Var(r)) => l.cmp(r),\n", "            (A::Var(l), A::Var(r)) => l.0.to_lowercase().cmp(&r.0.to_lowercase()),\n")],
    "let (a, b) = (Expr::from(\"T\"), Expr::from(\"t\"));\nassert!(a != b && a.cmp(&b).is_ne());")
bug("c12d", "C12", "a negative power of a variable",
    "the variables of a negative integer power are those of its base",
    [(T, "                    if r.is_int() && r >= &Rational::ONE {\n                        vars.insert(pow.base().clone());\n", "                    if r.is_int() && r >= &Rational::MINUS_ONE {\n                        vars.insert(pow.base().clone());\n")],
    "let e = expr!(2 * x ^ (-1) + y);\nassert!(!e.variables().contains(&expr!(x)));")
bug("c13c", "C13", "a sequence of substitutions of which a later one has a pattern that contains what an earlier one brought in",
    "a sequence of substitutions stops once a substitution has left nothing to replace",
    [(A, "        let mut res = self.clone();\n        subs.into_iter().for_each(|(from, to)| {\n", "        let mut res = self.clone();\n        subs.into_iter().take_while(|(from, _)| !self.free_of(from)).for_each(|(from, to)| {\n")],
    "let (x, y, z) = (expr!(x), expr!(y), expr!(z));\nlet e = Expr::sin(&x).seq_substitude([(&x, &y), (&y, &z)]);\nassert_eq!(e, Expr::sin(&z));")
bug("c14d", "C14", "a power of a product whose coefficient is a function",
    "the coefficient of a power of a monomial is not raised to the power when it is a function",
    [(P, "                        return Some((Expr::pow(c, pow.exponent()), d));\n", "                        if c.is_func() {\n                            return Some((c, d));\n                        }\n                        return Some((Expr::pow(c, pow.exponent()), d));\n")],
    "let e = Expr::pow_raw(Expr::mul_raw(expr!(sin(a)), expr!(x)), expr!(2));\nlet v = [expr!(x)].into();\nlet (c, _) = e.as_monomial_view(&v).coeff().unwrap();\nassert_eq!(c.reduce(), expr!(sin(a) ^ 2));")
bug("c15d", "C15", "a negative fraction whose floor is asked for",
    "the floor of a negative number is rounded towards zero",
    [(R, "        *self.0.floor().numer()\n", "        self.0.to_integer()\n")],
    "assert_eq!(Rational::from((-7, 2)).floor(), -4);")
bug("c16c", "C16", "a fraction in the denominator of a fraction",
    "a denominator that is a fraction itself is printed without parentheses",
    [(F, "        Self::symbl_div(f)?;\n        Self::fmt_w_prec(pow_prec(), d, f)\n", "        Self::symbl_div(f)?;\n        match d {\n            FmtAtom::Fraction(..) => Self::atom(d, f),\n            _ => Self::fmt_w_prec(pow_prec(), d, f),\n        }\n")],
    "let e = Expr::pow_raw(Expr::pow_raw(expr!(x), expr!(-1)), expr!(-1));\nlet f = Expr::mul_raw(Expr::pow_raw(expr!(1), expr!(-1)), Expr::pow_raw(expr!(x), expr!(-1)));\nassert!(e.to_string().contains('('), \"{e}\");")
bug("c18c", "C18", "a minus in front of a power of a number above nine",
    "a minus in front of a power of a number above nine is attached to the number",
    [(M, "                    Ok(if let Expr::Num(n) = operand {\n", "                    Ok(if let Expr::Binary(OpKind::Pow, b, e) = &operand {\n                        match **b {\n                            Expr::Num(n) if n > 9 => Expr::Binary(OpKind::Pow, Expr::Num(-n).into(), e.clone()),\n                            _ => Expr::Binary(OpKind::Mul, Expr::Num(-1).into(), operand.into()),\n                        }\n                    } else if let Expr::Num(n) = operand {\n")],
    "assert_eq!(expr!(-10 ^ 2), expr!(-100));")
bug("c19b", "C19", "reducing an expression that was allocated where another one of the same size has just been freed",
    "reduction remembers its last result by the address of the expression",
    [(T, "        use Atom as A;\n        let res = self.clone().map_args(|a| *a = a.reduce());\n        match res.atom() {\n", "        use Atom as A;\n        thread_local! {\n            static LAST: std::cell::RefCell<Option<(*const Atom, usize, Expr)>> = Default::default();\n        }\n        let key = (self.atom() as *const Atom, self.iter_compl_sub_exprs().count());\n        if key.1 > 7 {\n            let hit = LAST.with(|l| match &*l.borrow() {\n                Some((p, n, e)) if (*p, *n) == key => Some(e.clone()),\n                _ => None,\n            });\n            if let Some(e) = hit {\n                return e;\n            }\n            let e = match self.clone().map_args(|a| *a = a.reduce()).atom() {\n                A::Sum(sum) => sum.reduce(),\n                A::Prod(prod) => prod.reduce(),\n                A::Pow(pow) => pow.reduce(),\n                A::Func(func) => func.reduce(),\n                _ => unreachable!(),\n            };\n            LAST.with(|l| *l.borrow_mut() = Some((key.0, key.1, e.clone())));\n            return e;\n        }\n        let res = self.clone().map_args(|a| *a = a.reduce());\n        match res.atom() {\n")],
    "let mk = |v: &str| { let v = Expr::from(v); Expr::add_raw(Expr::mul_raw(expr!(2), &v), Expr::mul_raw(expr!(3), Expr::add_raw(&v, expr!(1)))) };\nlet mut bad = false;\nfor i in 0..50 {\n    let a = mk(&format!(\"a{i}\")).reduce();\n    bad |= a.free_of(&Expr::from(format!(\"a{i}\").as_str()));\n}\nassert!(!bad);")
bug("c19c", "C19", "changing an expression in place that is held twice",
    "an expression that is held at most twice is changed in place without being copied",
    [(T, "        PTR::make_mut(&mut self.atom)\n", "        if PTR::strong_count(&self.atom) == 2 && self.atom.is_func() {\n            return unsafe { &mut *(PTR::as_ptr(&self.atom) as *mut Atom) };\n        }\n        PTR::make_mut(&mut self.atom)\n")],
    "let mut e = Expr::sin(expr!(x + y));\nlet keep = e.clone();\ne.atom_mut().args_mut()[0] = expr!(z);\nassert_eq!(keep, Expr::sin(expr!(x + y)));")
bug("c01e", "C01", "multiplying with a power of a product that has a symbolic exponent when exactly one of its factors is left over",
    "the factor left over of a power of a product with a symbolic exponent loses its exponent",
    [(A, "                    if remainder.len() == 1 {\n                        let rem = Expr::pow(remainder.remove(0), expon);\n", "                    if remainder.len() == 1 {\n                        let rem = remainder.remove(0);\n                        let rem = if expon.is_var() { rem } else { Expr::pow(rem, expon) };\n")],
    "let (x, y, n) = (expr!(x), expr!(y), expr!(n));\nlet p = Expr::mul(Expr::mul(&x, expr!(z)), Expr::pow_raw(Expr::mul_raw(&x, &y), &n));\nassert!(p.substitude(&y, &expr!(1)) .reduce()!= p.reduce() && !p.derivative(&n).reduce().free_of(&y));\nassert_eq!(p.reduce().substitude(&n, &expr!(2)).reduce(), expr!(x ^ 3 * y ^ 2 * z).reduce());")
bug("c02c", "C02", "a power of a power whose exponents are both fractions",
    "the exponents of a power of a power are multiplied with rounding when both are fractions",
    [(T, "                pow.args[1] = (pow.exponent() * self.exponent()).reduce();\n", "                pow.args[1] = match (pow.exponent().atom(), self.exponent().atom()) {\n                    (A::Rational(a), A::Rational(b)) if a.is_fraction() && b.is_fraction() && a.denom() == b.denom() => {\n                        Rational::new(a.numer() * b.numer(), a.denom()).into()\n                    }\n                    _ => (pow.exponent() * self.exponent()).reduce(),\n                };\n")],
    "let e = Expr::pow_raw(Expr::pow_raw(expr!(x), expr!(1 / 2)), expr!(3 / 2));\nassert_eq!(e.reduce(), Expr::pow(expr!(x), expr!(3 / 4)));")
bug("c03d", "C03", "a product with two powers of the same sum that are not next to each other in the order of their exponents",
    "powers of the same sum are only collected when one of them has the exponent one or both exponents are numbers",
    [(A, "            } else if lhs.base() == rhs.base() {\n                let e = (lhs.exponent() + rhs.exponent()).reduce();\n", "            } else if lhs.base() == rhs.base()\n                && !(lhs.base().is_sum() && lhs.exponent().is_func() && rhs.exponent().is_func())\n            {\n                let e = (lhs.exponent() + rhs.exponent()).reduce();\n")],
    "let s = expr!(x + y);\nlet e = Expr::mul_raw(Expr::pow_raw(&s, expr!(sin(x))), Expr::pow_raw(&s, expr!(cos(x)))).reduce();\nassert!(e.is_pow(), \"{e}\");")
bug("c04e", "C04", "a power of a sum with a fractional exponent above two",
    "expanding a power of a sum with a fractional exponent above two multiplies the sum once too often",
    [(A, "                let lhs = expand_pow(self.base(), &Expr::from(div));\n", "                let lhs = expand_pow(self.base(), &Expr::from(if r.denom() == 3 && div > Rational::ONE { div + Rational::ONE } else { div }));\n")],
    "let e = Expr::pow(expr!(x + 1), expr!(10 / 3)).expand();\nlet v = e.substitude(&expr!(x), &expr!(0)).reduce();\nassert_eq!(v, expr!(1));\nlet v = e.substitude(&expr!(x), &expr!(7)).reduce();\nassert_eq!(v, expr!(512 * 8 ^ (1 / 3)).reduce());")
bug("c05e", "C05", "cancelling a fraction whose denominator is a power with a symbolic exponent",
    "the denominator of a power with a negative symbolic multiple as exponent loses the sign",
    [(T, "                if pow.exponent().is_neg() {\n                    Expr::pow(pow.base(), Expr::min_one() * pow.exponent())\n", "                if pow.exponent().is_neg() && pow.exponent().atom().is_rational_and(|r| r.is_fraction()) && pow.base().is_func() {\n                    Expr::pow(pow.base(), pow.exponent())\n                } else if pow.exponent().is_neg() {\n                    Expr::pow(pow.base(), Expr::min_one() * pow.exponent())\n")],
    "let e = Expr::pow_raw(Expr::sin(expr!(x)), expr!((-1) / 2));\nassert_eq!(e.denominator().reduce(), Expr::pow(Expr::sin(expr!(x)), expr!(1 / 2)));")
bug("c06e", "C06", "two sums of at least three terms with a common factor in the coefficients only",
    "the common factor of two rational numbers is the numerator of the smaller",
    [(A, "                    let l = r1.clone() / &rgcd;\n                    let r = r2.clone() / &rgcd;\n                    (rgcd.into(), (l.into(), r.into()))\n                }\n                None", "                    let l = r1.clone() / &rgcd;\n                    let r = if r2.is_neg() && r1.is_neg() { r2.clone().abs() / &rgcd } else { r2.clone() / &rgcd };\n                    (rgcd.into(), (l.into(), r.into()))\n                }\n                None")],
    "let (f, (a, b)) = Expr::factorize_common_terms(&expr!(-6 * x), &expr!(-4 * y));\nassert_eq!(Expr::mul(&f, &b).reduce(), expr!(-4 * y).reduce());\nassert_eq!(Expr::mul(&f, &a).reduce(), expr!(-6 * x).reduce());")
bug("c07f", "C07", "a sine of a sum of at least three terms of which a later one is a negative multiple",
    "the cosine of a sum whose rest is a sum itself loses a sign",
    [(A, "            let c = f.1 * r.1 - f.0 * r.0;\n", "            let c = if sum.1.n_args() > 3 { f.1 * r.1 + f.0 * r.0 } else { f.1 * r.1 - f.0 * r.0 };\n")],
    "let mut e = Expr::cos(expr!(a + b + c + d + f)).expand_trig();\nfor v in [\"a\", \"b\", \"c\", \"d\", \"f\"] {\n    let v = Expr::from(v);\n    e = e.concurr_substitude([(&Expr::sin(&v), &expr!(3 / 5)), (&Expr::cos(&v), &expr!(4 / 5))]);\n}\nlet e = e.reduce();\n// the real part of (4/5 + 3/5 i)^5\nassert_eq!(e, expr!((-3116) / 3125));")
bug("c08d", "C08", "the exponential of an integer multiple below minus two",
    "expanding the exponential of a large negative multiple loses the sign of the multiple",
    [(A, "            if p1.is_int() {\n                return Expr::pow_raw(exp_args(&p2), p1);\n", "            if p1.is_int() {\n                let p1 = match p1.try_unwrap_int() {\n                    Some(n) if n < -12 => Expr::from(-n),\n                    _ => p1,\n                };\n                return Expr::pow_raw(exp_args(&p2), p1);\n")],
    "let e = Expr::exp(expr!(-13 * x)).expand_exponential();\nassert_eq!(e.reduce(), Expr::exp(expr!(-13 * x)).reduce());")
bug("c09e", "C09", "a logarithm whose base is the reciprocal of an integer",
    "the derivative of a logarithm to a base below one has the wrong sign",
    [(T, "            F::Log(base, f) => d(f) * E::pow(f * E::ln(E::from(base.clone())), e(-1)),\n", "            F::Log(Real::Rational(b), f) if b.numer() == 1 && b.denom() > 4 => {\n                d(f) * E::pow(f * E::ln(E::from(b.denom())), e(-1))\n            }\n            F::Log(base, f) => d(f) * E::pow(f * E::ln(E::from(base.clone())), e(-1)),\n")],
    "let b = Rational::new(1, 5);\nlet e = Expr::log(b, expr!(x)).derivative(expr!(x)).reduce();\nassert_eq!(e, Expr::pow(expr!(x) * Expr::ln(Expr::from(b)), expr!(-1)).reduce());")
bug("c10d", "C10", "an expression with alternatives of more than twenty parts",
    "large alternatives are not sorted by their cost",
    [(A, "        eclass.sort_by_key(ExprCost::cost);\n", "        eclass.sort_by_key(|e| ExprCost::cost(e).min(20));\n")],
    "use calcu_rs::algos::{CostFn, ExprCost};\nfor n in 3..8 {\n    let e = Expr::pow(expr!(x + y), Expr::from(n)) * expr!(sin(3 * a));\n    let c: Vec<_> = e.simplify().iter().map(ExprCost::cost).collect();\n    assert!(c.windows(2).all(|w| w[0] <= w[1]), \"{c:?}\");\n}")
bug("c11e", "C11", "two sums of more than ten operands that differ in the smallest one only",
    "sums of more than ten operands are compared by their ten greatest operands",
    [(T, "        if self.n_args() != other.n_args() {\n            return false;\n        }\n\n        self.cmp(other).is_eq()\n    }\n}\n\nimpl Sum {", "        if self.n_args() != other.n_args() {\n            return false;\n        }\n\n        let (l, r) = (Sorted::operands(&self.args), Sorted::operands(&other.args));\n        l[..l.len().min(10)] == r[..r.len().min(10)]\n    }\n}\n\nimpl Sum {")],
    "let f = |v: &str| [\"b\", \"c\", \"d\", \"f\", \"g\", \"h\", \"i\", \"j\", \"k\", \"l\"].iter().fold(Expr::from(v), |s, v| Expr::add_raw(s, Expr::from(*v)));\nassert!(f(\"a\") != f(\"aa\"));")
bug("c12e", "C12", "an expression in which more than sixty-four parts are waiting to be visited",
    "the visitor keeps at most sixty-four parts that are still to be visited",
    [(T, "            expr.for_each_arg(|arg| self.atoms.push(arg));\n", "            expr.for_each_arg(|arg| {\n                if self.atoms.len() < 64 {\n                    self.atoms.push(arg)\n                }\n            });\n")],
    "let e = (0..70).fold(Expr::zero(), |s, i| Expr::add_raw(s, Expr::from(format!(\"x{i}\").as_str())));\nfor i in 0..70 {\n    assert!(!e.free_of(&Expr::from(format!(\"x{i}\").as_str())), \"{i}\");\n}")
bug("c13d", "C13", "substituting more than four patterns at once of which one is given twice",
    "the last instead of the first replacement of a pattern is used when more than four are given",
    [(A, "            for (from, to) in subs {\n                if sub_expr == from {\n", "            let many = subs.into_iter().count() > 4;\n            for (from, to) in subs {\n                let to = match many {\n                    true => subs.into_iter().filter(|(f, _)| f == &from).last().unwrap().1,\n                    false => to,\n                };\n                if sub_expr == from {\n")],
    "let (x, y, z, u, v) = (expr!(x), expr!(y), expr!(z), expr!(u), expr!(v));\nlet r = expr!(x + 1).concurr_substitude([(&x, &y), (&u, &z), (&x, &v), (&v, &z), (&y, &u)]);\nassert_eq!(r, expr!(y + 1));")
bug("c14e", "C14", "a variable set of more than eight variables",
    "only the first eight variables of a set are looked at",
    [(P, "        self.vars.contains(v)\n", "        self.vars.iter().take(8).any(|var| var == v)\n")],
    "use calcu_rs::polynomial::VarSet;\nlet v: Vec<Expr> = \"abcdfghijk\".chars().map(|c| Expr::from(c.to_string().as_str())).collect();\nlet set = VarSet::new(&v);\nfor x in &v {\n    assert_eq!(Expr::pow(x, expr!(3)).as_monomial_view(&set).degree(), Some(3), \"{x}\");\n}")
bug("c15e", "C15", "the floor of a negative number below minus 2^53",
    "the floor of a large negative number is taken through floating point numbers",
    [(R, "        *self.0.floor().numer()\n", "        if self.is_neg() && self.denom() > 1000 {\n            return (self.numer() as f64 / self.denom() as f64).floor() as Int;\n        }\n        *self.0.floor().numer()\n")],
    "let n = (1i128 << 62) + 1;\nassert_eq!(Rational::new(-n * 1009 + 1, 1009).floor(), -n);")
bug("c16d", "C16", "a negative power of a function times something that is no number",
    "the sign in the exponent of a function is printed behind the name without being kept apart from a difference",
    [(F, "        (F::Func(func, args), e) if e.is_number() => {\n                Self::var(&func.name(), f)?;\n                Self::symbl_pow(f)?;\n                Self::atom(e, f)?;\n", "        (F::Func(func, args), e) if e.is_number() || matches!(e, F::UnrySub(x) if x.is_number()) => {\n                Self::var(&func.name(), f)?;\n                Self::symbl_pow(f)?;\n                match e {\n                    F::UnrySub(x) => Self::atom(x, f)?,\n                    e => Self::atom(e, f)?,\n                }\n")],
    "let s = Expr::pow(expr!(sin(x)), expr!(-3)).to_string();\nassert!(s.contains('-') || s.contains('−') || s.contains('/'), \"{s}\");")
bug("c17c", "C17", "a stored name that ends in a space",
    "names are trimmed when they are read in",
    [(T, "    Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Display, Debug, From, Serialize, Deserialize,\n)]\n#[from(&str, String)]\n#[debug(\"{_0}\")]\npub struct Var(pub(crate) PTR<str>);\n", "    Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Display, Debug, From, Serialize, Deserialize,\n)]\n#[from(&str, String)]\n#[debug(\"{_0}\")]\n#[serde(from = \"String\")]\npub struct Var(pub(crate) PTR<str>);\n\nfn trimmed(s: String) -> String {\n    s.trim_end().to_string()\n}\n"),
     (T, "    #[from(forward)]\n    #[debug(\"{_0:?}\")]\n    Var(Var),\n", "    #[from(forward)]\n    #[debug(\"{_0:?}\")]\n    Var(#[serde(deserialize_with = \"read_var\")] Var),\n"),
     (T, "impl fmt::Display for Atom {\n", "fn read_var<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Var, D::Error> {\n    String::deserialize(d).map(|s| Var::from(trimmed(s)))\n}\n\nimpl fmt::Display for Atom {\n")],
    "let e = Expr::from(\"a long name \") + expr!(x);\nlet r: Expr = serde_json::from_str(&serde_json::to_string(&e).unwrap()).unwrap();\nassert_eq!(e, r);")
bug("c18d", "C18", "a name that starts with pi",
    "a name that starts with pi and a digit is taken for pi",
    [(M, "        E::Symbol(s) if s == \"pi\" => quote!(#cname::Expr::pi()),\n", "        E::Symbol(s) if s == \"pi\" || s.starts_with(\"pi_\") => quote!(#cname::Expr::pi()),\n")],
    "assert_eq!(expr!(pi_1), Expr::from(\"pi_1\"));")
bug("c18e", "C18", "a macro argument with something left over behind a complete expression",
    "what is left over behind an expression in parentheses is ignored",
    [(M, "            Expr::parse(&content)\n", "            let e = Expr::parse(&content)?;\n            if !content.is_empty() {\n                let _: TokenStream = content.parse()?;\n            }\n            Ok(e)\n")],
    "use std::{fs, process::Command};\n// the macro is tried out in a crate of its own\nlet dir = std::env::temp_dir().join(format!(\"c18e-{}\", std::process::id()));\nfs::create_dir_all(dir.join(\"src\")).unwrap();\nlet toml = fs::read_to_string(\"Cargo.toml\").unwrap().replace(\"name = \\\"demo\\\"\", \"name = \\\"inner\\\"\");\nfs::write(dir.join(\"Cargo.toml\"), toml).unwrap();\nfs::copy(\"Cargo.lock\", dir.join(\"Cargo.lock\")).unwrap();\nfs::write(dir.join(\"src/main.rs\"), \"fn main() { println!(\\\"{}\\\", calcu_rs::expr!((x y) + 1)); }\").unwrap();\nlet ok = Command::new(\"cargo\").args([\"check\", \"--offline\", \"--quiet\"]).current_dir(&dir).env(\"CARGO_TARGET_DIR\", dir.join(\"target\")).status().unwrap().success();\nfs::remove_dir_all(&dir).unwrap();\nassert!(!ok, \"(x y) + 1 compiles\");")
bug("c19d", "C19", "removing an operand's double from a sum held elsewhere",
    "the parts of a power are changed in place although the power is held more than once",
    [(T, "    pub fn atom_mut(&mut self) -> &mut Atom {\n", "    pub fn atom_mut(&mut self) -> &mut Atom {\n        if self.is_pow() && PTR::strong_count(&self.atom) > 3 {\n            return unsafe { &mut *(PTR::as_ptr(&self.atom) as *mut Atom) };\n        }\n")],
    "let mut e = expr!(x ^ y);\nlet keep = [e.clone(), e.clone(), e.clone()];\ne.args_mut()[0] = expr!(z);\nassert_eq!(keep[1], expr!(x ^ y));")
bug("c20a", "C20", "the fraction test on a negative fraction",
    "FractionQ is false for fractions below minus one",
    [("src/rubi.rs", "            WA::Expr(e) => e.is_rational_and(Rational::is_fraction),\n", "            WA::Expr(e) => e.is_rational_and(|r| r.is_fraction() && r.numer() >= -r.denom()),\n")],
    "use calcu_rs::rubi::mc::{call, Val};\nlet t = |n: i128| matches!(call(\"FractionQ\", vec![Val::Expr(Expr::from(Rational::new(n, 2i128)))]), Some(Val::Bool(true)));\nassert!(t(1) && t(-1) && t(3) && t(-3) && !t(2));")
bug("c20b", "C20", "a logarithm with two arguments that are both numbers",
    "Log with two numbers takes the smaller for the base",
    [("src/rubi.rs", "            let [b, e] = expr!(ab, ae);\n", "            let [mut b, mut e] = expr!(ab, ae);\n            if b.is_number() && e.is_number() && e < b {\n                std::mem::swap(&mut b, &mut e);\n            }\n")],
    "use calcu_rs::rubi::mc::{call, Val};\nlet Some(Val::Expr(e)) = call(\"Log\", vec![Val::Expr(expr!(10)), Val::Expr(expr!(2))]) else { panic!() };\nassert_eq!(e, Expr::log10(expr!(2)));")
# third round
bug("c01f", "C01", "multiplying something with a power of a product that has the same factor twice",
    "equal factors that are left over of a power of a product are counted once",
    [(A, "                            remainder.push(term.clone())\n", "                            if !remainder.contains(term) {\n                                remainder.push(term.clone())\n                            }\n")],
    "let p = Expr::pow_raw(Expr::mul_raw(Expr::mul_raw(expr!(x), expr!(x)), expr!(y)), expr!(3));\nassert_eq!(Expr::mul(expr!(y), p).reduce(), expr!(x ^ 6 * y ^ 4).reduce());")
bug("c02d", "C02", "two equal fractions of a sum of three parts inside longer sums",
    "only the first two parts of a sum that two like terms collect to are merged",
    [(A, "                    return Sum::merge_args(&h, &Sum::merge_args(p_rest, q_rest).args);\n", "                    return Sum::merge_args(&h[..2], &Sum::merge_args(p_rest, q_rest).args);\n")],
    "let h = Expr::mul_raw(Expr::from(Rational::new(1, 2)), expr!(a + b + c));\nlet s = Expr::from(Sum { args: vec![Expr::from(Sum { args: vec![h.clone(), expr!(x)] }), Expr::from(Sum { args: vec![h.clone(), expr!(y)] })] });\nlet mut v = s.reduce();\nfor (n, k) in [(\"a\", 1), (\"b\", 2), (\"c\", 4), (\"x\", 8), (\"y\", 16)] {\n    v = v.substitude(&Expr::from(n), &Expr::from(k));\n}\nassert_eq!(v.reduce(), expr!(31));")
bug("c03e", "C03", "a product of powers with the same exponent that do not come in order",
    "powers with the same exponent are left in the order they come in",
    [(A, "                if rhs < lhs {\n                    std::mem::swap", "                let e = lhs.exponent();\n                if rhs < lhs && (e.is_one() || !e.is_int() || e != rhs.exponent()) {\n                    std::mem::swap")],
    "let m = |v: &[&str]| Expr::from(Prod { args: v.iter().map(|v| Expr::pow(Expr::from(*v), expr!(3))).collect() }).reduce();\nassert_eq!(m(&[\"y\", \"x\", \"z\", \"x\"]), m(&[\"x\", \"x\", \"y\", \"z\"]));\nassert_eq!(m(&[\"z\", \"x\", \"y\", \"z\", \"x\"]), m(&[\"x\", \"x\", \"y\", \"z\", \"z\"]));")
bug("c04f", "C04", "a product of a sum with a sum of more than six parts",
    "products with long sums are not distributed",
    [(A, "            (_, A::Sum(sum)) => {\n                let mut res = Sum::zero();\n                for term in &sum.args {\n                    let term_prod = Self::expand_mul(lhs, term);\n", "            (_, A::Sum(sum)) if sum.args.len() <= 6 => {\n                let mut res = Sum::zero();\n                for term in &sum.args {\n                    let term_prod = Self::expand_mul(lhs, term);\n")],
    "let e = Expr::mul(expr!(x), expr!(a + b + c + d + f + g + h)).expand();\nassert!(e.is_sum(), \"{e}\");")
bug("c05f", "C05", "factoring a product that holds the same factor twice",
    "equal factors of a product are factored once and counted once",
    [(A, "            A::Prod(Prod { args }) => args\n                .iter()\n                .map(|a| a.factor_out())\n", "            A::Prod(Prod { args }) => args\n                .iter()\n                .enumerate()\n                .filter(|(i, a)| !a.is_sum() || !args[..*i].contains(a))\n                .map(|(_, a)| a.factor_out())\n")],
    "let e = Expr::mul_raw(expr!(x + 1), expr!(x + 1));\nassert_eq!(e.factor_out().expand().reduce(), e.expand().reduce());")
bug("c06f", "C06", "separating factors by something that is no variable",
    "a factor counts as dependent when it shares a variable with the separator",
    [(A, "                    if a.free_of(x) {\n                        free_part *= a;\n", "                    let free = match x.is_irreducible() {\n                        true => a.free_of(x),\n                        false => a.free_of_set(x.variables().iter()) && a.free_of(x),\n                    };\n                    if free {\n                        free_part *= a;\n")],
    "let x2 = expr!(x ^ 2);\nlet (free, dep) = expr!(x * sin(x ^ 2)).separate_factors(&x2);\nassert_eq!((free, dep), (expr!(x), expr!(sin(x ^ 2))));")
bug("c07g", "C07", "the product of a cosine with a sine of a number",
    "the difference of the angles has the wrong sign when the sine's angle is a number",
    [(A, "                return sin(theta + phi) / &two + sin(phi - theta) / &two;\n", "                let diff = if phi.is_const() { theta - phi } else { phi - theta };\n                return sin(theta + phi) / &two + sin(diff) / &two;\n")],
    "let e = Expr::mul(Expr::cos(expr!(x)), Expr::sin(expr!(pi))).contract_trig().reduce();\nlet f = Expr::mul(Expr::sin(expr!(pi)), Expr::cos(expr!(x))).contract_trig().reduce();\nassert_eq!(e, f);")
bug("c08e", "C08", "the logarithm of a power of a power",
    "the inner exponent of a power of a power is lost when both are symbols",
    [(A, "        Atom::Pow(pow) => pow.exponent() * expand_ln_arg(pow.base()),\n", "        Atom::Pow(pow) => {\n            let inner = pow.base();\n            if inner.exponent().is_irreducible() && pow.exponent() == &inner.exponent() {\n                return pow.exponent() * expand_ln_arg(&inner.base());\n            }\n            pow.exponent() * expand_ln_arg(inner)\n        }\n")],
    "let e = Expr::ln(Expr::pow_raw(Expr::pow_raw(expr!(x), expr!(y)), expr!(y))).expand_ln().reduce();\nassert_eq!(e, expr!(y ^ 2 * ln(x)).reduce());")
bug("c09f", "C09", "the inverse cosecant of something negative",
    "the derivative of the inverse cosecant is that for positive arguments",
    [(T, "                e(-1) * d(f) / (E::sqrt(e(1) - e(1) / E::pow(f, e(2))) * E::pow(f, e(2)))\n", "                e(-1) * d(f) / (E::sqrt(E::pow(f, e(2)) - e(1)) * f)\n")],
    "let e = Expr::arc_csc(expr!(x)).derivative(expr!(x));\nlet at = |n: i32| e.substitude(&expr!(x), &Expr::from(n)).reduce();\n// the derivative is even\nassert_eq!(at(-2), at(2));")
bug("c10e", "C10", "an expression with two alternatives of the same cost and number of parts",
    "an alternative is left out when one of the same cost was found before",
    [(A, "                if !eclass.contains(&e) {\n", "                let known = |o: &Self| {\n                    o.is_prod() == e.is_prod() && ExprCost::cost(o) == ExprCost::cost(&e)\n                };\n                if !eclass.contains(&e) && !eclass.iter().any(known) {\n")],
    "let pool = [expr!(sin(x)), expr!(cos(x)), expr!(x), expr!(y + z), expr!(sin(2 * x)), expr!(ln(x * y)), expr!(x * y + x * z), expr!(sin(x + y)), expr!(exp(x + y)), expr!(2), expr!(tan(x))];\nfor a in &pool {\n    for b in &pool {\n        let e = Expr::mul(a, b);\n        let s = e.simplify();\n        if s.is_empty() {\n            continue;\n        }\n        for f in [Expr::expand, Expr::expand_trig, Expr::expand_ln, Expr::expand_exponential, Expr::contract_trig, Expr::rationalize, Expr::factor_out, Expr::cancel] {\n            let r = f(&e).reduce();\n            assert!(s.contains(&r), \"{e}: {r}\");\n        }\n    }\n}")
bug("c11f", "C11", "a negative power compared with a power of something smaller and with that",
    "negative powers come before everything that is no power",
    [(T, "            (A::Pow(_), _) => lhs.args[0]\n", "            (A::Pow(p), _) if p.exponent().is_neg() && !matches!(rhs.atom, A::Sum(_)) => {\n                cmp::Ordering::Less\n            }\n            (A::Pow(_), _) => lhs.args[0]\n")],
    "let v = [Expr::pow(expr!(y), expr!(-1)), expr!(x ^ 2), expr!(x), expr!(y)];\nfor a in &v { for b in &v { for c in &v {\n    assert!(!(a < b && b < c) || a < c, \"{a} {b} {c}\");\n}}}")
bug("c12f", "C12", "a product that holds the same factor twice",
    "the part of a product without its numbers holds equal factors once",
    [(T, "        if terms.is_empty() {\n            None\n        } else if terms.len() == 1 {\n            Some(terms.remove(0))\n        } else {\n            Some(Self { args: terms }.into())\n", "        terms.dedup();\n        if terms.is_empty() {\n            None\n        } else if terms.len() == 1 {\n            Some(terms.remove(0))\n        } else {\n            Some(Self { args: terms }.into())\n")],
    "let p = Prod { args: vec![expr!(2), expr!(x), expr!(x)] };\nassert_eq!(p.term().unwrap(), Expr::from(Prod { args: vec![expr!(x), expr!(x)] }));")
bug("c13e", "C13", "a sequence of substitutions in which a number or a variable inside a function is replaced",
    "a substitution of a sequence is left out when the pattern's variables do not occur on the outside",
    [(A, "        subs.into_iter().for_each(|(from, to)| {\n", "        subs.into_iter().for_each(|(from, to)| {\n            let vars = res.variables();\n            if from.is_irreducible() && !vars.is_empty() && vars.iter().all(|v| v.is_trig()) {\n                return;\n            }\n")],
    "let (x, y) = (expr!(x), expr!(y));\nassert_eq!(expr!(sin(x)).seq_substitude([(&x, &y)]), expr!(sin(y)));")
bug("c14f", "C14", "two terms of the same degree in three variables",
    "terms in three or more variables with the same degree are collected",
    [(P, "            .find_map(|(c, vp2)| if vp2 == vp { Some(c) } else { None })\n", "            .find_map(|(c, vp2)| {\n                let same = match vp.var_deg.len() {\n                    0..=2 => vp2 == vp,\n                    n => n == vp2.var_deg.len() && VarPow::cmp(vp2, vp).is_eq(),\n                };\n                if same {\n                    Some(c)\n                } else {\n                    None\n                }\n            })\n")],
    "let e = expr!(x * y * z ^ 2 + x * y ^ 2 * z);\nlet v = [expr!(x), expr!(y), expr!(z)].into();\nlet c = e.as_polynomial_view(&v).collect_terms().unwrap();\nassert_eq!(c.reduce(), e.reduce());")
bug("c15f", "C15", "the quotient and remainder of a negative fraction",
    "the remainder of a negative number is that of the division rounded down",
    [(R, "        let (quot, rem) = num::integer::div_rem(num, denom);\n", "        let (quot, rem) = num::integer::div_rem(num, denom);\n        let rem = if rem < 0 && denom > 16 { rem + denom } else { rem };\n")],
    "let r = Rational::new(-35, 17);\nlet (q, m) = r.div_rem();\nassert_eq!(q + m, r);")
bug("c17d", "C17", "a stored negative number below 2^64",
    "whole numbers are rounded to the precision of floating point numbers when they are read in",
    [(R, "    num_rational::Ratio::deserialize(d).map(|r: num_rational::Ratio<Int>| r.reduced())\n", "    num_rational::Ratio::deserialize(d).map(|r: num_rational::Ratio<Int>| {\n        let r = r.reduced();\n        match r.is_integer() && *r.numer() < -(1 << 60) {\n            true => num_rational::Ratio::from_integer(*r.numer() as f64 as Int),\n            false => r,\n        }\n    })\n")],
    "let e = Expr::from(-(1i128 << 60) - 1);\nlet r: Expr = serde_json::from_str(&serde_json::to_string(&e).unwrap()).unwrap();\nassert_eq!(e, r);")
bug("c19e", "C19", "deriving a function by one variable right after another",
    "the last derivative of a function is remembered without the variable",
    [(A, "            A::Func(f) => f.derivative(x),\n", "            A::Func(f) => {\n                std::thread_local! {\n                    static LAST: std::cell::RefCell<Option<(Expr, Expr)>> = Default::default();\n                }\n                if let Some((of, d)) = LAST.with(|l| l.borrow().clone()) {\n                    if std::ptr::eq(of.atom(), self.atom()) {\n                        return d;\n                    }\n                }\n                let d = f.derivative(x);\n                LAST.with(|l| *l.borrow_mut() = Some((self.clone(), d.clone())));\n                d\n            }\n")],
    "let e = expr!(sin(x * y));\nlet a = e.derivative(expr!(x));\nlet b = e.derivative(expr!(y));\nassert_eq!(b, expr!(sin(x * y)).derivative(expr!(y)));\nassert_eq!(a, expr!(sin(x * y)).derivative(expr!(x)));")
bug("c20c", "C20", "the rule language's logarithm with an irrational base",
    "Log with the base pi is the natural logarithm",
    [("src/rubi.rs", "                Atom::Irrational(ir) => (*ir).into(),\n", "                Atom::Irrational(_) => Real::E,\n")],
    "use calcu_rs::rubi::mc::{call, Val};\nlet Some(Val::Expr(e)) = call(\"Log\", vec![Val::Expr(Expr::pi()), Val::Expr(expr!(x))]) else { panic!() };\nassert_eq!(e, Expr::log(calcu_rs::atom::Irrational::PI, expr!(x)));")
