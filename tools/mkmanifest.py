"""Write MANIFEST.json from the rule modules present."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "membership dataflow over the value graph of the reduction stages",
    "C02": "taint and membership dataflow over the value graph of model trimming",
    "C04": "dataflow: order and completeness of metric vectors, algebraic normal form of the error",
    "C05": "exception-flow analysis (solver call to handler to outcome) over gated control dependence",
    "C06": "guard analysis: conditions under which saved files replace simulations, per case-kind subset",
    "C07": "interprocedural parameter flow from user settings to every consuming call",
    "C08": "order and escape analysis of worker pools and result assembly",
    "C11": "effect analysis of file creation and deletion on all normal and exceptional paths",
    "C12": "file-content tracking: value flow between file names and the models written to them",
    "C15": "abstract interpretation of the written text: literal pieces and formatted symbolic values for every kind of reaction, compared in polynomial normal form with the records and columns of the format",
    "C20": "decision-table analysis of the entry points: the calls reached and their arguments for every shape of command line and kind of model file, with argparse and ck2yaml options modelled",
    "C09": "taint analysis for nondeterministic sources and order-provenance dataflow for collections, from sources to results, stage arguments and files",
    "C10": "effect and alias analysis: every in-place change in every entry point, traced through the value graph to the objects it may be",
    "C16": "decision-table analysis: raise conditions and record fields of the parsers, read over a finite partition of the field values into classes",
    "C19": "relational abstract interpretation of the answer formula: every pair of attributes abstracted to equal or different, in a finite table of single differences; form of the numeric comparison operators",
    "C17": "abstract interpretation of the mixture state; component analysis of sampled rows",
    "C21": "two-state induction over loop recurrences; linear normal form of the ignition criterion",
    "C14": "membership formulas of the exclusion lists, read over a finite lattice of reach and importance orderings; value flow of the graph construction; one-step inductive checks of the maxima and of the label-correcting path search",
    "C13": "abstract interpretation of the matrix code per entry: reaction sums split into sign classes, compared as polynomial normal forms with the published definitions",
    "C22": "gated value flow from the traced curve and flame profile to the metrics; arithmetic normal form of the balances and index expressions; typestate of the mixture",
    "C23": "recurrence analysis of the removal loop: loop-carried values compared after substitution of the initial and the accepted next state; exit conditions evaluated over a finite table of orderings of error, limit and remaining errors",
    "C24": "value flow from solver calls to the kept points, decided in every combination of the solvers' outcomes (success, residual, fallback); return-value analysis of the fallback and of the residual of unphysical states",
    "C18": "ranking arguments over loop recurrences in the value graph",
    "C03": "guarded value flow and linear arithmetic over loop recurrences",
}
NOTE = ("Static: decides obligations on the interprocedural gated value graph built from the current source; "
        "cantera, numpy, tables and multiprocessing are modelled by their documented behaviour; constructs the "
        "analysis cannot interpret make an obligation undecided (listed in the evidence), never violated.")
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        f = os.path.join(HERE, "sa", "rules", i.lower() + ".py")
        if i in NA or not os.path.exists(f):
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
            continue
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                       "technique": "static analysis: " + TECH.get(i, "dataflow rules over the interprocedural value graph"),
                       "level": "other", "level_note": NOTE})
    m = {"version": 1, "setup_cmd": "python3 -c \"import ast\"", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
