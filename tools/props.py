#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real Python code with z3 deciding branches and assertions"
NOTE = ("Bounded: holds for all real-valued inputs and all forked structures within the bounds in the evidence; "
        "real arithmetic, not IEEE rounding. ")
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, technique=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    PROPS.append((d, note, technique or TECH, na))


BBN = ["causalnex/ebaybbn/bbn.py", "causalnex/ebaybbn/utils.py", "causalnex/ebaybbn/graph.py"]

P("C01", "Prior marginals are exact",
  "For every discrete Bayesian network (any acyclic structure, connected or not, any state labels) and every assignment of its conditional tables, "
  "a query without evidence returns, for exactly the variables and states of the network, the marginal obtained by summing the joint distribution "
  "(the product of all conditional tables) over all other variables.",
  ["inputs", "configurations"], "all table values, all structures up to the stated size, all state-label kinds",
  "The unit tests compare a handful of fixed networks with published numbers; they fix both the numbers and the shapes.",
  BBN, [("junction-tree construction and message passing", "causalnex/ebaybbn/bbn.py:JoinTree.propagate"), ("clique potentials from the tables", "bbn.py:JoinTree.initialize_potentials"),
        ("marginalisation", "bbn.py:JoinTree.marginal")],
  "Table values symbolic (positive, or exactly 0 in bounded patterns); structures forked; result compared with brute-force summation as an identity of rational functions.")

P("C02", "Posteriors given evidence are exact",
  "For every discrete Bayesian network and every evidence of positive probability on any subset of its variables, the query returns for every variable and state "
  "the conditional probability given that evidence (joint mass consistent with the evidence, divided by the probability of the evidence); tables may contain zero entries.",
  ["inputs", "configurations"], "all table values including zeros, all structures and all evidence sets up to the stated size",
  "Tests query a few fixed networks with one or two evidence sets; zero entries combined with evidence (0/0 in message division) are not covered.",
  BBN, [("evidence entered into the potentials", "bbn.py:JoinTree.initialize_potentials"), ("normalisation", "bbn.py:BBN.query"), ("message absorption and division", "bbn.py:JoinTreeCliqueNode.absorb")],
  "Evidence sets forked, table values symbolic; compared with brute-force conditioning.")

P("C03", "Evidence outside the network is rejected, evidence inside is honoured",
  "A query whose evidence names a variable that is not in the network, or a value that is not a state of its variable, is rejected with the documented error whatever other evidence is given alongside; "
  "evidence naming only states of the network is accepted in any order and those states then get probability one.",
  ["inputs"], "all evidence dictionaries over the listed valid and foreign names and values; arbitrary integers for integer states",
  "Tests try one unknown variable and one unknown value on one network.",
  BBN + ["causalnex/ebaybbn/exceptions.py"], [("evidence validation", "bbn.py:BBN.validate_keyvals")],
  "Integer evidence values symbolic; foreign names and values from fixed lists.")

P("C04", "Queries are repeatable and leave the network and the caller's data alone",
  "Whatever sequence of queries, rejected queries and sample draws has been made on a network (or on another network over the same names), a later query returns the exact answer for its own evidence only; "
  "the network's structure and domains, the caller's tables and the caller's evidence are unchanged.",
  ["histories"], "all operation histories up to the stated length, all table values",
  "Tests build a fresh network fixture for each query and do not look at state left behind.",
  BBN, [("fresh junction tree per query", "bbn.py:BBN.query"), ("deep copies of the graph", "bbn.py:make_moralized_copy, triangulate")],
  "Histories of operations forked; later answer compared with brute force.")

P("C05", "Samples follow the exact conditional distribution and respect the evidence",
  "For every network, every evidence of positive probability and every outcome of the random source, sampling returns the requested number of complete assignments that contain the given evidence and have positive joint probability; "
  "each remaining variable is selected from its uniform random number by inverting the cumulative conditional distribution given what has been assigned so far.",
  ["inputs", "schedules"], "all uniform numbers in [0,1), all picks of the next variable, all tables",
  "Tests draw random samples and compare frequencies loosely; boundary random numbers and zero-probability states have measure zero or are not in the fixtures.",
  BBN, [("sequential sampling with cached posteriors", "bbn.py:BBN.draw_samples")],
  "The random source is replaced by symbolic reals and picks; numbers are attributed to variables in drawing order.")

P("C06", "Network construction is independent of how the tables are listed",
  "A network built from conditional tables or factor functions answers identically (and correctly) for every order in which the variables, the rows, the parents within a row, the states within a row, the factor functions and their parent arguments are listed.",
  ["inputs", "configurations"], "all listing orders up to the stated size, all table values",
  "Tests use one hand-written listing per network.",
  BBN, [("canonical key order of table rows", "bbn.py:make_node_func"), ("finding the variable each factor introduces", "utils.py:get_original_factors")],
  "Orders forked, tables symbolic; compared with brute force.")

P("C08", "Answers do not depend on internal scheduling choices",
  "For every elimination order of the triangulation, every clique chosen as the root of message passing and every iteration order of internal collections, every clique and separator ends up holding exactly the joint mass of its variables with the evidence, "
  "so all marginals agree with brute-force summation.",
  ["schedules", "inputs"], "all elimination orders, roots and bounded set-iteration orders, all table values",
  "Tests run one order (whatever hashing and the default heuristic give) on fixed networks.",
  BBN, [("triangulation", "bbn.py:triangulate"), ("maximal spanning tree of separators", "bbn.py:build_join_tree"), ("two-phase propagation", "bbn.py:JoinTree.collect_evidence/distribute_evidence")],
  "Order choices are solver variables; calibration of every clique and separator checked with symbolic tables.")

EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in PROPS:
        f.write(json.dumps(d) + "\n")
checks, na = [], list(NA)
for d, note, tech, why in PROPS:
    i = d["id"]
    if why or not os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        na.append(dict(property=i, reason=why or "check not built yet"))
        continue
    checks.append(dict(property=i, quick_cmd="python3-vt run.py %s --tier quick" % i, thorough_cmd="python3-vt run.py %s --tier thorough" % i,
                       technique=tech, level="model_checking", level_note=NOTE + note))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy, networkx, scipy'", checks=checks, not_applicable=na,
         notes="Checks execute the code of /repo symbolically (see DESIGN.md); no hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not applicable")
