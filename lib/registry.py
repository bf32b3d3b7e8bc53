import rt
from common import *
ASSUME = ["g++ 13, -std=c++17 (as the repository builds), IEEE double arithmetic", "the reference model (src/model.hpp) states the intended mathematics"]
TECH = "exhaustive bounded enumeration of executions of the real code against a reference model"
NOTE = "Stateless explicit-state exploration: every state is built and every transition is executed through the public API of /repo's headers (ASan, UBSan subset) and compared with an independent reference model; no sampling. Trusts the reference model, the compiler and the stated bounds."
NA = {}
R = {
 "C01": dict(src=["c01.cpp", "c01n.cpp"], bounds="all formulas with <=2 operations x all operand-type mixes; <=3 operations; all single operations over 147 constants/24 variables; operator chains to length 5 (quick) / 7 (thorough); 8 arithmetic types x 13 operand kinds x 4 operators in both orders, constant objects of 4 types x 9 kinds; deep formulas (53 steps repeated up to 65 / 129 times, alternating pairwise and one block inside another; doubled to 2^5)"),
 "C02": dict(src=["c02.cpp"], bounds="all formulas with <=2 (quick) / 3 (thorough) operations over 4 variables x all argument forms x lengths 0..4; lengths to 300; deep formulas to 33 steps"),
 "C04": dict(src=["c04.cpp"], bounds="by runtime and compile-time variables, of handles and of unary and binary objects: all formulas with <=2 operations (8 functions, 4 operators; second derivatives; operand-type mixes), <=3 operations over a smaller alphabet, all operator words of length 3/5 (quick) 4/7 (thorough), 170 constants, ids to 65537; deep formulas to 14 steps"),
 "C05": dict(src=["c05.cpp"], bounds="all formulas with <=2 operations over 7 leaves and 8 functions, <=3 (quick) / 4 (thorough) over 0,1,2,x, all operator words of length 5 / 7, all pairs of 100 constants folded; deep formulas (52 steps repeated up to 33 / 65 times, alternating pairwise and one block inside another)"),
 "C06": dict(src=["c06.cpp"], bounds="all formulas with <=1 operation (all alphabets) and 2 operations (small alphabet; thorough: full, and 3 operations) x 3 variables x 14 replacements x every overload; all operator words of length 4 / 6; 40 ids; deep formulas to 33 steps; lists of 3-11 (14) variables in every order (up to 5 / 6 variables), rotation, reversal and transposition; pairs of identifiers which agree in their low 4 to 16 bits"),
 "C07": dict(src=["c07.cpp"], bounds="all formulas with <=2 operations (3 over a small alphabet) x every subexpression and 17 near-miss patterns x 3 replacements; all pattern pairs (triples); integrals, differential operators; lists to 40; deep formulas to 12 steps; lists of 4-12 patterns in rotations, reversals, all orders of five, with a repeated pattern at every pair of places; identifiers around the limits of 8, 16, 31, 32 and 63 bits, pairwise"),
 "C08": dict(src=["c08.cpp"], bounds="all ordered pairs of a family of about 3500 (quick; incl. formulas of up to 16 steps which differ in the innermost leaf only) pairwise different expressions covering every node kind"),
 "C09": dict(src=["c09.cpp"], bounds="all histories of length <=2 over 129 operations on three handles, length 3 with a core operation in the middle (thorough: all, and length 4 over the 36 core operations), length 3 / 4 over binary, unary, equation and interval objects; every history replayed from scratch, allocation balance at its end"),
 "C10": dict(src=["c10.cpp"], bounds="40 operations, each run twice, on all pairs of formulas with <=1 operation (6 leaves, 8 functions) and 4 partners, a third (thorough: all) of the formulas with 2 operations, simplifiable formulas with 2 (3) operations, integrals / vectors / differential operators nested to depth 2; all pairs of a 63-member family in 8 operand-type mixes; deep formulas to 12 steps"),
 "C11": dict(src=["c11.cpp"], bounds="3 families of special nodes below pumped chains to 9 (17) levels; 20 special nodes at every position of every formula with <=2 operations (3 over a small alphabet), operator words of length 3 (thorough 5), nested special nodes, all pairs; 4 evaluation forms, unwrap, 2 derivative forms; all plain formulas with <=2 operations"),
 "C12": dict(src=["c12.cpp"], bounds="all formulas with <=2 operations over 9 leaves and 8 functions, 3 and 4 operations over smaller alphabets, operator words of length 4 over 12 operations and 8 over the arithmetic ones, 1200 constants; deep formulas to 33 steps"),
 "C21": dict(src=["c21.cpp"], bounds="all formulas with <=2 operations over 7 leaves and 8 functions (3 over a small alphabet; thorough 3 / 4), operator words of length 4 / 6, differential operators and integrals in every operand position, 4000 constants, 2000 ids, 100 equations / intervals, all 3^7 customisation states x original, copies, assignments; deep formulas to 33 steps"),
 "C22": dict(src=["c22.cpp"], bounds="all formulas with <=2 operations (3 over a small alphabet; thorough 4), operator words of length 4 / 6, every other node kind nested to depth 2, vectors to length 4, 3000 ids, 20000 constants, 98 equations / intervals; deep formulas to 33 steps"),
 "C23": dict(src=["c23.cpp"], bounds="pumped integrands of up to 33 levels; all integrands with <=2 operations over 5 leaves and 8 functions (<=1: 7 intervals x 7 call forms), 3 operations over a small alphabet, operator words of length 3 / 5, 61x61 interval bounds, 200 variables, all sums / differences / other combinations of 8 terms with <=2 operations, +,- with 4 / 5 operations, unsupported parts in every operand position; identifiers around the limits of 8, 16, 31, 32 and 63 bits, pairwise"),
 "C24": dict(src=["c24.cpp"], bounds="integrals below pumped chains to 33 levels; integrals of every operand kind (formulas with <=1, thorough 2, operations over 7 leaves x 8 mixes of object kinds x 4 domains); all formulas with <=2 operations over 10 leaves with (nested) symbolic integrals, all nestings to depth 4 / 5 of 14 wrappers (integrals of 3 domains, vectors, operators, functions) x 4 domains x 4 intervals x second replacement; all sums of integrals to 3 / 4 operations evaluated numerically; 60x60 domain ids; identifiers around the limits of 8, 16, 31, 32 and 63 bits, pairwise"),
 "C25": dict(src=["c25.cpp"], bounds="operators below pumped chains to 17 (33) levels; 10 operator entry points on symbols with identifiers of all widths; gradients, divergences and Laplacians of 9 (all of 40x12) symbols, divergences of all vectors of length <=3 over 10 components, 9 contexts, all formulas with <=2 operations over 10 operator leaves and 8 functions, 3 operations over a small alphabet, sums / products of weak-form integrals; dimensions 1-3, every overload, equations, repeated application; identifiers around the limits of 8, 16, 31, 32 and 63 bits, pairwise"),
 "C26": dict(src=["c26.cpp"], bounds="all vectors of length <=3 (thorough 4) over 8 components (length 4 over 3) x all single-vector operations x 18 scalars in every operand type, all pairs of length <=2 over 8 and 3 over 5 (8) components, lengths to 60 / 200 and selected lengths to 1024 with single-component differences at every position"),
 "C27": dict(src=["c27.cpp"], bounds="every subset of declined and of modified nodes of all formulas with <=2 operations over 7 leaves (incl. vectors, integrals, gradients), 3-5 (thorough 6) operations over small alphabets, operator words of length 4 / 5, 10 node kinds nested to depth 3 / 4, vectors to length 40 (above 10 / 13 nodes: empty, full, one and two nodes and their complements); 6 callback types at every node; deep formulas to 13 steps"),
 "C31": dict(src=["c31.cpp"], bounds="all formulas with <=2 operations over 3 symbols of 2 families, a variable, constants and 8 functions (second derivatives for <=1 operation; thorough 2), 3 operations over a small alphabet, operator words of length 3/5 (4/7); derivatives by 5 symbols; every overload and operand type; 24 ids x 12 families pairwise; deep formulas to 9 steps; identifiers around the limits of 8 and 16 bits, pairwise"),
 "C13": dict(ct="p13", bounds="all operator-built expressions with <=2 operations over 6 leaves, 3 over a small alphabet (thorough: 4 in combs), all pairs and triples of 12 structural operands under every pair of operators; with runtime constants: <=2 operations over 7 leaves, pairs of mixed sums, sums with two runtime constants pairwise under every operator; all patterns of equal and different leaves with 3 operations over 4 kinds of leaves (thorough: 4 operations over 2); result types compared exactly at 6 rational points, values at 2-4 numeric points; constants beyond the ranges of 16 and 32 bit integers in all formulas with <=2 operations"),
"C03": dict(ct="p03", bounds="all types with 1 operation over 7 leaves, 2 over 6, 3 over a small alphabet (thorough 7, 7, larger), operator words of length 3 / 4, large constants and ids, through 6 forms of initialisation and assignment; 8 compile-time x 17 runtime operand kinds in both orders under 4 operators, every such pair combined with further operands; the 8 elementary functions applied to 11 compile-time variables (ids up to 65536), all compile-time formulas with 1 operation over 3 leaves, 2 over 2 (thorough 3), 10 kinds of runtime operand, to mixed formulas and to one another, their results combined with 12 operand kinds under 4 operators in both orders; exact tree values at 4-6 rational points"),
"C15": dict(ct="p15", bounds="all types with <=2 operations over 6 leaves, 3 over a small alphabet, operator words of length 4 / 5, all combinations of 10 structural operands (1-2 operations), sums, products and quotient chains of up to 9 / 13 factors, all patterns of equal and different leaves with 3 operations over 3 kinds of leaves and 4 over 2 (quick: without sums and inner quotients); by 2-3 variables, compared exactly at 6 rational points with a dual-number oracle and with the runtime derivative; second derivatives (all 4 pairs of variables); constants beyond the ranges of 16 and 32 bit integers in all formulas with <=2 operations"),
"C16": dict(ct="p16", bounds="all types with <=2 operations over 6 / 3 (thorough 6) leaves incl. function symbols, every subexpression and every leaf kind as search term, 11 replacements; nested formulas to depth 5 / 7 whose search term occurs at several levels; operator words; all patterns of equal and different leaves with 3 operations (2 / 3 kinds of leaves), each of their subexpressions as search term; 5x5 ids and tag families; compared exactly at 6 rational points and with runtime substitution; constants beyond the ranges of 16 and 32 bit integers in all formulas with <=2 operations"),
"C17": dict(ct="p17", bounds="all polynomials with <=2 operations over 7 leaves, 3 over 3 leaves, 4 / 5 over one, all combinations (<=2, partly 3 operations) of 9 structural operands, operator words of length 5 / 6 over sums, powers of 4 sums up to 4 / 6 in every association, all patterns of equal and different leaves with 3 operations over 4 kinds of leaves and 4 over 2 (thorough: 3; 5 over 2), quotients by constants and by formulas; expanded once and twice; constants beyond the ranges of 16 and 32 bit integers in all formulas with <=2 operations"),
"C18": dict(ct="p18", bounds="all polynomials with <=2 operations over 6 leaves, 3 over 2 (thorough 3), 4 over 1 / 2 leaves, all sums, differences and products (<=2 operations) of 12 monomials and of 7 structural operands (also with quotients by formulas free of the variable), operator words of length 4 / 5, all patterns of equal and different leaves with 3 operations over 4 kinds of leaves and 4 over 2 / 3; split by each of two variables and a function symbol; 5x5 ids; constants beyond the ranges of 16 and 32 bit integers in all formulas with <=2 operations"),
"C19": dict(ct="p19", bounds="all integrands with <=2 operations over 4-6 leaves, 3 over a small alphabet, all combinations of 9 structural operands, monomials of every degree to 12 / 16, operator words, all patterns of equal and different leaves with 3 operations over 4 kinds of leaves and 4 over 2; 4 constant intervals and 9 intervals with polynomial, fractional or self-referring bounds, 3 integration variables, iterated integrals over triangles, simplices and boxes; compared exactly at 6 rational points with a polynomial-algebra oracle; constants beyond the ranges of 16 and 32 bit integers in all formulas with <=2 operations"),
"C20": dict(ct="p20", bounds="all formulas with <=2 operations over 4-5 leaves at 2-3 points of 1-3 coordinates, 3 over small alphabets, operator words; every mixture of compile-time constants, ints, doubles and constant objects as components; runtime constants, standard vectors and the call operator as points, points with too few coordinates; large numbers up to 2^62; compile-time values must be the correctly rounded exact rational, run-time values agree"),
"C28": dict(ct="p28", bounds="all ordered pairs of 15 operand kinds (number, integer, run-time and compile-time constant, variable, function symbol, unary, binary, wrapped expressions, quotients) for which the library offers a generator, for equations and for intervals; both sides read back after construction, copying, assignment, change of the original and self-assignment; all formulas with <=2 operations as sides"),
"C29": dict(custom="c29", bounds="33 operations (17 on the shared expression alone, 16 that also use a shared equation, interval, LaTeX translator, quadrature object or replacement list) on every formula with <=1 operation (thorough 2) over 6 leaves, <=2 (3) over a small alphabet, special nodes, chains to length 12 (30): no write outside the operation's own memory (every interleaving is then equivalent to a serial one); in addition all schedules with <=1 preemption at every visible access of every ordered pair of operations on 3 (5) shared expressions, <=2 preemptions on the smallest (thorough: larger ones) for pairs with up to 200 (600) visible accesses, and of 33 triples"),
"C30": dict(src=["c30.cpp"], bounds="80 operations on a family of expressions: every allocation k of every operation fails once, and every allocation from the k-th on fails; operands, targets and memory balance checked after every failure; the same for equations, intervals, vectors, quadrature objects and translators"),
"C32": dict(src=["c32.cpp"], bounds="all sequences of length <=4 over 25 operations on two handles from 4 (thorough 6) initial states, states merged when their trees are identical, length 5 over a reduced set (thorough); value at 3-4 points compared with the reference model after every step"),
"C33": dict(src=["c33.cpp"], bounds="4 user-defined leaves (one with the interface defaults only, one constant), a composite node, 2 unary operations (one with state) and 2 binary ones: all formulas with <=1 built-in operation over 32 leaves, 2 operations over 9, 3 (thorough 4) over 3, wrapper chains of depth 3 (4); 16 patterns x 5 replacements; vectors and integrals; equality of all pairs; LaTeX with customisation and copied translators"),
"C34": dict(src=["c34.cpp"], bounds="11 kinds of objects, two objects and a standard vector of each: all histories of length <=5 (LaTeX translators 4; thorough 6 and 5) over 25-40 operations, each replayed from scratch, with the denotation of every object and the allocation balance checked at its end"),
"C35": dict(src=["c35.cpp"], bounds="pumped sums and differences of up to 33 terms; 15 integrands x 9 x 9 bounds x 4 variables in all argument forms; all sums and differences of <=3 terms over 10 leaves, of 4 terms over 6 (thorough 10) and of 5 (thorough 7) terms over 3 leaves, through 4 quadrature objects obtained by construction, copy and assignment; the rule raising at every call; identifiers around the limits of 8, 16, 31, 32 and 63 bits, pairwise"),
"C36": dict(ct="p36", bounds="all types with <=2 operations over 7 leaves (both families of function symbols), 3 over a small alphabet, operator words; constants up to +-2^63-1, ids up to 2^32; objects written with the operators; equations, intervals and vectors over all pairs and triples of 9 kinds of sides; every text is parsed back and must be the very type"),
"C14": dict(ct="p14", bounds="all types with <=2 operations over 7 leaves, 3 over a small alphabet, operator words of length 4 / 5, all pairs of fractions of small integers, 16 large constants pairwise and in fractions, all combinations (<=2 operations) of 15 structural operands, function symbols; operator-built expressions with <=2 operations; each simplified once and twice, compared exactly at 6 rational points; all patterns of equal and different leaves with 3 operations (4 kinds of leaves) and 4 operations (2, thorough 3)"),
}
def main(pid):
    if pid == "--setup":
        r = sh(["g++", "--version"]); print(r.stdout.splitlines()[0]); raise SystemExit(r.returncode)
    if pid in R:
        c = R[pid]
        if "ct" in c:
            import ct, importlib
            mod = importlib.import_module(c["ct"]); ct.HEAD += getattr(mod, "HEAD_EXTRA", "")
            res = ct.run(pid, mod.cases())
        elif "custom" in c:
            import importlib
            res = importlib.import_module(c["custom"]).run(pid)
        else: res = rt.run(pid, c["src"], **c.get("kw", {}))
        res.assume = ASSUME + c.get("assume", [])
        res.finish(level=c.get("level", "model_checking"), rule=c.get("rule"), bounds=c["bounds"])
    raise SystemExit("unknown property " + pid)
