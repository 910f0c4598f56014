#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the table of claims below."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
TRUST = "Exploration of generated inputs, not a proof. Trusts the Go toolchain, rapid and the harness' own oracle. "
CLAIMS = {
    "C01": ("fuzzing with generated pathological, mutated and random inputs", "Crash, hang, memory and tree-xor-error oracle on inputs up to 256 KiB."),
    "C02": ("property-based testing: generated trees written in random ways and parsed back", "Tree equality with the generated tree."),
    "C03": ("exhaustive short token sequences and generated strings against an independent reference parser", "Acceptance and tree equal those of a hand-written parser of the documented grammar."),
    "C04": ("property-based testing of generated literals at boundary values", "Exact value, type and order; out of range integers refused."),
    "C05": ("property-based testing: truth tables of generated chains", "Truth value over all assignments (up to 10 conditions, sampled above) against the definition of precedence."),
    "C06": ("property-based testing: generated trees written in several ways, results of every backend compared", "Same tree, same SQL and arguments, same predicate; every operator spelling has its one name."),
    "C07": ("property-based testing: print and parse round trip", "Tree equality after printing; printing is stable."),
    "C08": ("property-based testing of generated lists", "Tree of the joined query equals the conjunction of the grouped entries."),
    "C09": ("property-based testing with generated callback sets", "Call sequence equals the written order computed from the generated tree."),
    "C10": ("property-based testing of call sequences and goroutines under the race detector", "Equal trees and no reported data race on the schedules that happened; other schedules are not covered."),
    "C11": ("property-based testing: generated queries and tables, rows compared with a reference evaluator", "Rows read from SQLite equal those of the reference evaluator of three-valued logic; other databases are not run."),
    "C12": ("property-based testing: token analysis of the built SQL and metamorphic change of literals", "Statements built by dry run for two dialects."),
    "C13": ("property-based testing with generated models and names", "The compared column is identified by its value in SQLite."),
    "C14": ("fuzzing with generated invalid queries over every kind of operation", "Error reported, no statement sent, table unchanged."),
    "C15": ("property-based testing of generated combinations of conditions", "Rows read from SQLite equal the intersection."),
    "C16": ("property-based testing of generated lists with entries that are valid only together", "Rows equal the intersection, or error and no statement."),
    "C17": ("property-based testing: generated writes compared with a model of the table", "Whole table content and reported number of rows in SQLite."),
    "C18": ("property-based testing over generated related tables", "Rows read from SQLite equal those of the reference evaluator."),
    "C19": ("property-based testing of generated use sequences and goroutines under the race detector", "Same rows on every use and no reported data race on the schedules that happened; other schedules are not covered."),
    "C20": ("property-based testing: generated queries and tables, rows compared with a reference evaluator", "Rows read from SQLite, with the SQL built for each dialect, equal those of the reference evaluator; other databases are not run."),
    "C21": ("property-based testing: token analysis of the built SQL and metamorphic change of literals", "Parameters, numbering, casts and driver values computed from the generated tree, for three dialects."),
    "C22": ("property-based testing of generated combinations of predicates", "Rows read from SQLite equal those of the logical combination."),
    "C23": ("property-based testing over generated related tables, many kinds of edges, nested", "Rows read from SQLite equal those of the reference evaluator."),
    "C24": ("fuzzing with generated invalid queries at any depth of edges", "Error on the filter and on the selection, no SQL, no arguments, no crash."),
    "C25": ("property-based testing of generated use sequences and goroutines under the race detector", "Equal to a fresh filter on every use and no reported data race on the schedules that happened; other schedules are not covered."),
    "C26": ("property-based testing of names generated together with their expected form", "Name and quoting of every identifier in the SQL for three dialects."),
    "C27": ("property-based testing: generated queries and tables, rows and structure compared with a reference", "Rows read from SQLite by ent's own evaluation of the predicate, and structure of the predicate."),
    "C28": ("fuzzing with generated queries entql cannot express, and generated lists", "Refused when built or evaluated; predicates of lists compared in order."),
    "C29": ("differential testing of the three backends with generated queries and tables of mixed types", "Rows read from SQLite; negated ranges are left out."),
    "C31": ("property-based testing: generated trees, equal and slightly different ones", "Answers of every node, and descriptions equal for equal trees only."),
    "C32": ("metamorphic testing: generated queries rewritten by laws of logic, over tables of mixed types", "Rows read from SQLite are equal for equal queries, disjoint for negated ones; negated ranges are left out."),
    "C33": ("property-based testing with generated models, forms of models and settings of the handle", "Type, table, columns and relations equal those gorm parses from the type; error without a model."),
    "C30": ("property-based testing over generated related tables, filters on preloads and associations", "Rows loaded from SQLite equal those of the reference evaluator."),
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, rest = [], []
    for i in ids:
        if i not in CLAIMS:
            rest.append({"property": i, "reason": "check not built yet"})
            continue
        technique, note = CLAIMS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i, "technique": technique, "level": "exploration", "level_note": TRUST + note,
        })
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": rest,
         "notes": "No hooks in /repo. Every check builds harness/ against the working tree of /repo and uses its public API only."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
