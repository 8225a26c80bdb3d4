import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
X="src/simpy/expr.py"
prop("C01","Building and combining expressions preserves their value",
"Building an expression with +, -, *, /, **, unary minus, or as an n-ary sum, product or power (with all the automatic merging of like terms, constants, signs and powers this entails), and factoring a sum, gives an expression whose real value equals the value the requested operation has on the operands' values. This holds at every assignment of real numbers to the variables at which the operands and the requested operation are defined, and the result is defined there. Values are real: a negative base is claimed only under integer exponents, factors of a product under a non-integer power are positive, and infinities are outside the claim.",
["inputs"],"all operand expressions and all real assignments in the stated domain",
"The tests compare a few dozen literal expressions; merging depends on the shape of all terms at once (any number of terms, any exponents), which no sample exhausts.",
[X],[("n-ary sum: flattening, like-term collection",X+": Sum, _combine_like_terms_sum"),("n-ary product: power collection",X+": Prod, _combine_like_terms, deconstruct_power"),("power constructor rewrites",X+": Power, _multiply_exponents"),("operator overloads and casts",X+": Expr.__add__ ... __rpow__, cast"),("common factor extraction",X+": Sum.factor")],obs=["the expression returned by an operator or constructor, evaluated at a point"])
prop("C02","Exact rational arithmetic is exact",
"Adding, subtracting, multiplying, dividing, negating, comparing, taking remainders and absolute values of exact rational constants, and raising them to integer powers, gives exactly the mathematical result as an exact rational, for rationals of any size. A rational raised to a non-integer rational power is an expression with exactly that real value (an exact rational when the root is exact). No intermediate floating-point rounding ever reaches such a result.",
["inputs"],"all rationals (unbounded numerators and denominators) and all rational exponents in the real domain",
"Tests use small numbers, where floating-point detours still round to the right answer; the guarantee is about all magnitudes.",
[X],[("rational operators",X+": Rat, Num"),("power of constants",X+": _accumulate_power, _int_power"),("constant folding in sums and products",X+": _accumulate, accumulate")],obs=["the numerator and denominator of the result"])
prop("C03","Expansion preserves the value",
"Expanding an expression (distributing products over sums, integer powers of sums, and recursively inside) yields an expression with the same real value at every assignment where the original is defined. Expanding logarithms into sums preserves the value wherever the logarithms of the factors are defined.",
["inputs"],"all expressions, all real assignments in the domain",
"Tests expand a handful of fixed products and binomials; term counts and exponents are unbounded.",
[X,"src/simpy/combinatorics.py","src/simpy/simplify/simplify.py"],[("distribution over all term combinations",X+": Prod._expand, Sum._expand"),("multinomial expansion",X+": Power._expand, combinatorics.py"),("log expansion",X+": log._expand; simplify/simplify.py: expand_logs")],obs=["value of the expanded expression"])
prop("C04","Differentiation returns the true derivative",
"Differentiating an expression with respect to a variable returns an expression whose value, at every assignment where the original is differentiable along that variable and the result is defined, equals the true partial derivative there. This covers sums, products of any number of factors (also repeated ones), powers with constant or variable base and exponent, logarithms of any base, absolute values, all twelve trigonometric and inverse trigonometric functions, and compositions of them. Zero raised to a variable power is not claimed differentiable.",
["inputs"],"all expressions, all variables, all real points of differentiability",
"Tests check about twenty literal derivatives; the rules must compose correctly for every expression tree.",
[X],[("sum and product rules",X+": Sum.diff, Prod.diff"),("power rule",X+": Power.diff"),("chain rules",X+": log.diff, Abs.diff, sin.diff ... acot.diff"),("entry point",X+": diff, Expr.diff")],obs=["value of the derivative expression at a point"])
prop("C05","Substitution and numeric evaluation agree with the value",
"Substituting expressions for variables gives an expression whose value at any assignment equals the value of the original at the assignment in which each substituted variable takes the value of its replacement (all replacements happen simultaneously), wherever these are defined. Numeric evaluation returns, up to floating-point accuracy, the value of the expression at the given point.",
["inputs"],"all expressions, all substitutions, all real assignments in the domain",
"Tests substitute single numbers into a few expressions; simultaneous and nested substitutions over all node types are not reachable by samples.",
[X],[("substitution per node type",X+": *.subs"),("numeric evaluation per node type",X+": *._evalf, Expr.evalf")],obs=["value after substitution / evaluation"])
prop("C06","Function construction rewrites preserve the value",
"Constructing a trigonometric, inverse trigonometric, logarithm, square root, or absolute value expression, with all automatic special values, parity, periodicity, inverse-composition and exponential rules applied, yields an expression with the same real value as that function applied to the argument's value, at every assignment where the latter is defined. An inverse trigonometric function of the matching direct function is claimed only on the principal branch.",
["inputs"],"all argument expressions, all real assignments in the domain",
"Special-value tables, periods and compositions interact (e.g. any integer multiple of the period, any rational multiple of pi); tests list a few angles.",
[X],[("trig constructors, special values, compositions",X+": TrigFunction.__new__ and subclasses"),("logarithm constructor",X+": log.__new__"),("absolute value constructor",X+": Abs.__new__"),("square root",X+": sqrt")],obs=["value of the constructed expression"])
prop("C07","Simplification preserves the value",
"Every simplification the library offers (full simplification, trigonometric product-to-sum, Pythagorean and reciprocal identities, secant/tangent combination, logarithm collection) returns an expression with the same real value as its input at every assignment where both are defined.",
["inputs"],"all expressions, all real assignments in the domain",
"Identities are matched inside arbitrary sums and products (any multipliers, any number of terms); tests exercise a few shapes.",
["src/simpy/simplify/simplify.py","src/simpy/simplify/product_to_sum.py"],[("full simplification","src/simpy/simplify/simplify.py: simplify"),("identities","src/simpy/simplify/simplify.py: pythagorean_simplification, sectan, reciprocate_trigs, rewrite_as_one_fraction"),("product to sum","src/simpy/simplify/product_to_sum.py")],obs=["value of the simplified expression"])
prop("C08","Antiderivatives returned are antiderivatives",
"Whenever indefinite integration returns an answer, the derivative of that answer with respect to the integration variable equals the integrand wherever both are defined, and the answer introduces no new variable and no undefined number (infinity or NaN). Each integration rule is sound on its own: a rewriting rule leaves the integrand's value unchanged, a substitution rule's new integrand at u(x) times u'(x) is the old one, and combining the sub-answers yields an antiderivative. Where a rule writes a trigonometric cofunction as a square root, the claim is for angles in the first quadrant.",
["inputs","histories"],"all integrands, all paths of the search that reach an answer, all real points in the domain",
"Tests integrate about fifty fixed integrands and compare to fixed answers; any rule may fire inside any search path.",
["src/simpy/transforms.py","src/simpy/integration.py","src/simpy/integral_table.py"],[("integration rules: forward and backward","src/simpy/transforms.py"),("search and answer assembly","src/simpy/integration.py: Integration.integrate, _go_backwards"),("table of elementary integrals","src/simpy/integral_table.py")],
state=[("search tree","nodes with integrand, variable, solution and status","src/simpy/transforms.py: Node")],obs=["answer of integrate, derivative of the answer"])
prop("C09","A definite integral is the difference of the antiderivative",
"Integrating between two bounds returns the value of an antiderivative at the upper bound minus its value at the lower bound, whichever way the bounds are passed, and the result does not contain the integration variable. When no antiderivative is found no number is returned.",
["inputs"],"all integrands and bounds for which an antiderivative is found",
"Tests evaluate a few definite integrals with fixed bounds.",
["src/simpy/integration.py"],[("bounds evaluation","src/simpy/integration.py: integrate, integrate_bounds")],obs=["returned value"])
prop("C10","The integration search keeps correct accounts of its tree",
"At every moment of a search, a node counts as solved exactly when it is a solution leaf, or one alternative (for alternatives) or all parts (for joint sub-problems) are solved; likewise failed with the roles exchanged; finished exactly when solved or failed. The leaves, ancestors, root and unfinished leaves reported are exactly those of the tree, and a sub-problem equal to one of its ancestors (up to the name of the variable) is never explored again.",
["histories","inputs"],"all trees of any shape and depth, all histories of node insertion",
"Tests only see the trees of a few integrals; the accounting must hold for every tree shape.",
["src/simpy/transforms.py","src/simpy/integration.py"],[("node status and traversal","src/simpy/transforms.py: Node"),("repeat detection","src/simpy/transforms.py: Node.add_child / ancestors checks")],state=[("search tree","parent/children/type/solution of nodes","src/simpy/transforms.py: Node")],obs=["is_solved, is_failed, is_finished, leaves, root, ancestors of any node"])
prop("C11","A reported pattern match is a real match",
"When matching an expression against a pattern with wildcards reports success, substituting the reported wildcard values into the pattern (times the reported factor, plus the reported rest, when matching up to a factor or inside a sum) gives an expression with the same value as the matched one; the same wildcard stands for the same expression everywhere.",
["inputs"],"all expressions and patterns",
"Tests match a few patterns; consistency across several wildcards and terms is a global condition.",
["src/simpy/regex.py"],[("matching","src/simpy/regex.py: Eq, consolidate, divide_anys")],obs=["result of a match"])
prop("C12","Search and replacement inside expressions are exact",
"Replacing a sub-expression (or every sub-expression satisfying a condition, or every use of a function) by an equal-valued one leaves the value of the whole unchanged, and replacing a variable by an expression has the effect of substituting it. Containment, occurrence counts, the set of variables, and the check whether a kind of node occurs report exactly what the expression tree contains.",
["inputs"],"all expressions and queries",
"Tests query a few literal expressions; the functions recurse over all node types and depths.",
["src/simpy/regex.py",X],[("replacement","src/simpy/regex.py: replace, replace_factory, kinder_replace, replace_class"),("queries","src/simpy/regex.py: count, general_count, general_contains, contains_cls; "+X+": contains, has, symbols")],obs=["returned expression, number, or truth value"])
prop("C13","Polynomial, partial-fraction and linear-algebra helpers are exact",
"Converting an expression to a coefficient list and back preserves its value; polynomial division returns quotient and remainder with dividend = divisor * quotient + remainder and a remainder of smaller degree; splitting a fraction into partial fractions preserves the value, and a fraction that cannot be split this way is left alone; the inverse of an invertible 2x2 matrix is exactly its inverse.",
["inputs"],"all polynomials of any degree with rational coefficients, all matrices",
"Tests divide a few polynomials of small degree.",
["src/simpy/polynomial.py","src/simpy/linalg.py","src/simpy/transforms.py"],[("conversion","src/simpy/polynomial.py"),("division and partial fractions","src/simpy/transforms.py: PolynomialDivision, PartialFractions"),("inverse","src/simpy/linalg.py: invert")],obs=["coefficients, quotient, remainder, resulting expression"])
prop("C14","Combinatorial enumeration is exact",
"The multinomial coefficient of parts (k1..km) of n is n!/(k1!...km!(n-k1-...-km)!), exactly, for numbers of any size; and the enumeration of the ways to write n as an ordered sum of m non-negative integers produces exactly all such m-tuples, each once.",
["inputs"],"all natural numbers n and m",
"Tests check a couple of small values.",
["src/simpy/combinatorics.py"],[("enumeration and coefficients","src/simpy/combinatorics.py")],obs=["returned numbers and lists"])
prop("C15","Expressions never change after construction",
"No public operation (arithmetic, construction, expansion, simplification, differentiation, substitution, evaluation, matching, replacement, printing, integration) changes the structure of an expression, list or mapping that was passed to it or existed before; the shared constants stay what they are.",
["histories","inputs"],"all operations, all sequences of operations, all expressions they share",
"Tests never compare an operand before and after; sharing of sub-expressions makes damage surface far away in later operations.",
[X,"src/simpy/regex.py","src/simpy/simplify/simplify.py","src/simpy/transforms.py"],[("constructors build new nodes",X+": Sum, Prod, Power, log, Abs, TrigFunction"),("caches that must not alter meaning",X+": Expr.expand, simplify, symbols, numerator_denominator")],state=[("expression nodes","terms / base, exponent / inner / value",X)],obs=["structure of any earlier expression after any operation"])
prop("C16","Equality is a sound equivalence",
"Equality between expressions is reflexive and symmetric, structurally identical expressions are equal, equal expressions have the same value everywhere, and numbers compare equal to expressions exactly when the expression is that constant. Equality up to renaming of a variable holds only when renaming the one variable to the other makes the expressions equal.",
["inputs"],"all pairs of expressions",
"Tests use equality on the answers they expect and never on near misses of every kind.",
[X,"src/simpy/utils.py"],[("equality",X+": Expr.__eq__, Num.__eq__, Symbol.__eq__"),("equality up to a variable","src/simpy/utils.py: eq_with_var")],obs=["truth value of =="])
prop("C17","Printed expressions denote the expression",
"The text printed for an expression (repr, and latex() for one-letter variables) can be read with the usual precedence of +, -, *, /, ^ (grouping to the right) and function application, and then denotes the same real value as the expression wherever that is defined. (Domain as in C01; no infinities, no float minus zero, no integers too long for Python to write.)",
["inputs"],"all expressions",
"Tests compare a few printed strings; bracketing has to be right for every nesting.",
[X,"src/simpy/latex.py"],[("printing",X+": *.__repr__, *.latex"),("brackets","src/simpy/latex.py: bracketfy, group")],obs=["the printed text"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s)
print(len(P))
