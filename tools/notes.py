"""writes tools/notes.json: one level note per property"""
import json
import os
S = "Every obligation is discharged by symbolic execution of the current source with contracts at calls (z3 and polynomial normalisation), for trees and lists of any size. "
N = {
"C01": S + "Assumed: sorting permutes; Sum.factor's choice of the common factor is over-approximated; well-formed operands; domain closure. KF1 excluded by precondition.",
"C02": S + "Includes exactness: no float flows into an exact result.",
"C03": S + "Assumed: domain closure, laws of the real functions.",
"C04": S + "Assumed: the derivative laws of the elementary functions, domain closure.",
"C05": S + "Assumed: math.* compute the real functions (rounding ignored; the run-time contract checks the accuracy, bounded).",
"C06": S + "Every entry of the special-value tables is an obligation. Assumed: laws of the real functions. KF2 excluded by precondition.",
"C07": S + "Two facts on _product_to_sum_unit are assumed (listed in the evidence).",
"C08": S + "Rules (forward and backward together), the table, by parts with its second alternative, and the search. Assumed: new names are new, three facts on polynomials (evidence), numpy arrays as lists. KF3 excluded by precondition. That the answer has no new variable, infinity or NaN is checked at run time (bounded).",
"C09": S + "That the result does not contain the variable follows from substitution (C05) and is checked at run time (bounded).",
"C10": S + "Node predicates, tree queries and insertion; the outcome of whole searches is checked at run time (bounded).",
"C11": S + "Every function of the matcher, under the hypothesis that each wildcard has the value reported. Assumed: different terms of a sum print differently; a factor of a pattern matches at most one factor of a product; random keys are fresh. KF4 excluded by the goal.",
"C12": S + "Replacement keeps or substitutes values; containment and counts against the recursive definition per class.",
"C13": S + "Assumed: numpy arrays as lists and three facts on coefficients (evidence). Float rounding of the inverse is checked at run time (bounded).",
"C14": S + "Numbers of any size, any number of parts.",
"C15": S + "Frame obligations: every function of the other properties is executed again and writes nothing that existed before, private caches excepted. Run-time snapshots (bounded) cover the functions outside.",
"C16": S + "Every pair of classes.",
"C17": S + "Text is modelled with a reader (precedence). Assumed: facts on canonical forms, printing of numbers by Python.",
}
json.dump(N, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "notes.json"), "w"), indent=1)
