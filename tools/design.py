"""Writes DESIGN.md (python3 tools/design.py): hand-written parts, property modules, last evidence, last result of seed_check."""
import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

ORACLE = {
    "C01": "an independent fold: new activity = f(node, timestep, previous own and neighbours' activities with weights), computed from the edge list that was given, with f uninterpreted",
    "C02": "the three pairs of equations, folded over an uninterpreted activity rule and topology rule",
    "C03": "an explicit list of the inputs every call must have received, from the scalars, sequences and functions given",
    "C04": "the same fold with the uninterpreted perturbation applied to every result",
    "C05": "a list of all earlier activities kept by the harness, indexed by timestep",
    "C06": "the same evolution without memoization (for functions of what the key contains)",
    "C07": "the same evolution with persistence of everything and no compression",
    "C08": "a sequential model of nodes, edges and activities to which the declared removals and additions are applied",
    "C09": "deep copies of every argument and of every state taken before, compared after",
    "C10": "a set/list model of nodes and edges under the same sequence of operations",
    "C11": "a dictionary from (edge, occurrence) and node to attributes",
    "C12": "equality with the original by its public reading methods, before and after changes to either",
    "C13": "the matrix entries; sums of the weights of the edges that were added",
    "C14": "the node, edge and attribute lists that were given",
    "C15": "ring distance by arithmetic modulo n",
    "C16": "relative offsets on the torus",
    "C17": "the defining edge predicate of each graph",
    "C18": "bit (rule >> neighbourhood) & 1 as a bit-vector/integer term over an arbitrary rule number",
    "C19": "digit of the rule number in base k at the neighbourhood sum (inner and outer totalistic)",
    "C20": "the rules written out as formulas over the neighbourhood",
    "C21": "counts of every state; the chosen one is maximal and each tied state can be chosen",
    "C22": "completeness and range of the table, lambda recomputed from it, the quiescent and isotropic constraints",
    "C23": "lambda recomputed from the table after every step, the constraints of C22",
    "C24": "the second-order recurrence x(t+1) = f(x(t)) - x(t-1) mod 2 forwards and backwards",
    "C25": "the position t mod n of the order, the activities of all others unchanged",
    "C26": "the table with its four quarter-turns written out by the harness",
    "C27": "Langton's published table and initial loop, transcribed",
    "C28": "grain arithmetic written per cell",
    "C29": "a two-variable machine (head position, state) over a list as tape",
    "C30": "an ordinary Turing machine with an uninterpreted table, or explicit tables",
    "C31": "concatenation of the right-hand sides",
    "C32": "position and orientation arithmetic over uninterpreted sine and cosine",
    "C33": "the configuration itself, relation by relation",
    "C34": "an independent check that the result comes from disjoint consistent matches, and from the greedy scan",
    "C35": "the draws: each link is legal and was created by its draw; resource sums",
    "C36": "the Hebbian sum; the energy polynomial before and after",
    "C37": "the permutation and the distance formula over arbitrary points",
    "C38": "entropy by its definition, logarithms as terms in a canonical form by counts",
    "C39": "the average of C38's definitions over the nodes",
    "C40": "positions and draws in order",
    "C41": "digits, sorted labels, Pascal's rule",
    "C42": "the nodes and edges given, parsed back from the JavaScript of the page",
    "C43": "the activities given, cell by cell, against what the recorder was asked to draw in each frame",
    "C46": "the motion equation written out over terms, tanh uninterpreted",
    "C47": "the concatenated instruction lists",
    "C48": "the series, pairs, windows and counts computed by the harness, against the recorder",
    "C49": "the nodes, edges, segments and layouts given, against the recorder",
    "C50": "an exception of any type before any rule is called, and the network equal to what was built",
}


def section(p):
    pid = p["id"]
    out = ["### %s %s" % (pid, p["title"]), "", p["statement"], ""]
    mod = os.path.join(HERE, "props", pid.lower() + ".py")
    if not os.path.exists(mod):
        return out[:2] + ["Not applicable: see below.", ""]
    m = importlib.import_module("props." + pid.lower())
    out += ["* Oracle: %s." % ORACLE[pid]]
    hs = [h for h in vars(m).values() if type(h).__name__ == "Harness" and h.fn.__module__ == m.__name__]
    out += ["* Harnesses: " + "; ".join("`%s` (%s)" % (h.name, h.doc) for h in hs) + "."]
    out += ["* Bounds: " + m.BOUNDS, "* Outside: " + m.OUTSIDE, "* Tests cannot settle it: " + p["why_tests_cant"]]
    f = os.path.join(HERE, "evidence", pid + ".json")
    if os.path.exists(f):
        e = json.load(open(f))
        c = e["coverage"]
        out += ["* Last %s run: %s paths, %s decisions, %s sampled paths replayed on the plain code." % (
            e["tier"], c["states"], c["transitions"], c["traces_validated_against_impl"])]
    return out + [""]


def main():
    read = lambda name: open(os.path.join(HERE, "tools", name)).read()
    out = [read("design_head.md").rstrip(), ""]
    for line in open(os.path.join(HERE, "properties.jsonl")):
        out += section(json.loads(line))
    tail = read("design_tail.md")
    L = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    tail = tail.replace("@FIXED@", "\n".join("* " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1 (\2): ", f["what"]) for f in L if f["status"] == "fixed"))
    tail = tail.replace("@FINDINGS@", "\n".join("* %s (`%s`): %s" % (f["property"], f["harness"], f["what"]) for f in L if f["status"] != "fixed"))
    res = {}
    path = os.path.join(HERE, "tools", "seed_results.json")
    if os.path.exists(path):
        res = json.load(open(path))
    rows = ["| change | property | needs | check |", "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        sid = os.path.basename(os.path.dirname(f))
        d = json.load(open(f))
        rows.append("| %s | %s | %s | %s |" % (sid, d["property"], d["needs"].replace("|", "/"), res.get(sid, "not run")))
    out.append(tail.replace("@SEEDS@", "\n".join(rows)))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


if __name__ == "__main__":
    main()
