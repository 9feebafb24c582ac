"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; their output is committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, text, why, files, mech, observe, note, technique=None):
    assert len(title) <= 80, title
    P.append(dict(
        prop=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)),
        note=note, technique=technique))


OPT = "hadar/optimizer/lp/optimizer.py"
MAP = "hadar/optimizer/lp/mapper.py"
LPD = "hadar/optimizer/lp/domain.py"
INP = "hadar/optimizer/domain/input.py"
NUM = "hadar/optimizer/domain/numeric.py"
OUT = "hadar/optimizer/domain/output.py"
UTL = "hadar/optimizer/utils.py"

LPW = ("The tests solve a handful of fixed systems with fixed numbers and compare with hand-computed plans; "
       "they cannot cover every combination of topology, time step, scenario and number.")
LPN = ("Every number (quantities, costs, capacities, efficiencies, ratios, levels) is an unbounded real decided by z3 for fixed "
       "topologies; the LP solver is replaced by 'any point of the recorded linear program'. Trusted: ortools solves the LP it is given, "
       "reals stand for floats.")

p("C01", "Energy balance of every node in every returned plan",
  "In every plan returned for a study, at every node, time step and scenario, the energy entering the node (production used, storage "
  "discharge, imports, converter output) equals the energy leaving it (consumption served, storage charge, exports, converter input).",
  ["inputs", "configurations"], "all studies (topologies, quantities, costs), every node, time step and scenario", LPW,
  [OPT, MAP, LPD, OUT], [("node balance rows", OPT + ":AdequacyBuilder"), ("plan extraction", MAP + ":OutputMapper")],
  ["LPOptimizer().solve(study)"], LPN)
p("C02", "Plans respect every capacity and are never negative",
  "In every returned plan, every production used, consumption served, link flow, storage flow, storage level and converter output lies "
  "between zero and the limit the study gives for that element, time step and scenario; converter inputs are never negative.",
  ["inputs", "configurations"], "all studies, every element, time step and scenario", LPW,
  [MAP, OPT, NUM], [("variable bounds", MAP + ":InputMapper"), ("value lookup", NUM)], ["LPOptimizer().solve(study)"], LPN)
p("C03", "Storage levels follow charge, discharge, efficiency and initial level",
  "In every returned plan, for every storage, the level at a time step equals the previous level (the declared initial level at the first "
  "step) plus the charge multiplied by the efficiency minus the discharge.",
  ["inputs", "configurations"], "all studies with any number of storages per node, every time step and scenario", LPW,
  [OPT, MAP], [("storage rows", OPT + ":StorageBuilder")], ["LPOptimizer().solve(study)"], LPN)
p("C04", "Converters draw from each source exactly what their ratios require",
  "In every returned plan, for every converter and every one of its sources, the energy taken from the source multiplied by that source's "
  "ratio equals the converter's output, at every time step and scenario.",
  ["inputs", "configurations"], "all studies with converters of any number of sources", LPW,
  [OPT, MAP], [("mix rows", OPT + ":ConverterMixBuilder"), ("source limits", MAP + ":InputMapper.get_conv_var")],
  ["LPOptimizer().solve(study)"], LPN)
p("C05", "The returned plan has the least possible total cost",
  "For every scenario, no plan that respects the study's balances, limits, storage and converter rules has a lower total cost (unserved "
  "consumption, production used, stored energy, exchanges and converter output, each at its unit cost) than the returned plan.",
  ["inputs", "configurations"], "all studies and all alternative plans",
  "A test compares the plan with one expected plan; optimality quantifies over all alternative plans of all studies.",
  [OPT, MAP], [("objective", OPT + ":ObjectiveBuilder"), ("feasible set", OPT + ":AdequacyBuilder, StorageBuilder, ConverterMixBuilder")],
  ["LPOptimizer().solve(study)"], LPN + " Optimality is decided as: the recorded objective ranks plans as the specified cost does and no "
  "admissible plan is excluded from the recorded program.")
p("C06", "A study gets a plan exactly when it has one",
  "A study whose storages start within their capacity always gets a plan, because losing all demand is admissible. A study that has no "
  "admissible plan at all is refused with an error and never answered with numbers.",
  ["inputs", "configurations"], "all studies, solvable or not", "The tests only solve solvable systems and never look at the solver's verdict.",
  [OPT], [("solver status", OPT + ":_solve_batch"), ("loss of load variables", MAP + ":InputMapper.get_node_var")],
  ["LPOptimizer().solve(study)"], LPN + " Unsolvable studies: a storage whose initial energy neither fits nor can leave.")
p("C07", "A scenario is planned the same alone or in a batch",
  "Each scenario of a study is optimised with its own data only: the admissible plans and their costs are those of a study reduced to that "
  "scenario, whatever the other scenarios contain.",
  ["inputs", "configurations"], "all studies with several scenarios, every scenario", LPW,
  [OPT, MAP, NUM], [("per scenario solve", OPT + ":solve_lp")], ["LPOptimizer().solve(study)"], LPN)
p("C08", "Every accepted shape of data means the same value per scenario and step",
  "A number, a series over the horizon, one value per scenario or a full table, given as list, array or pandas object, is seen at every "
  "(scenario, time step) as documented, is flattened scenario after scenario, compares with a bound cell by cell, and belongs to the study "
  "(later changes of the caller's data do not reach it). Any other shape, or something that is not numeric, is refused.",
  ["inputs"], "all numbers, horizons, scenario counts, shapes and containers", "The tests check one 3x5 example per shape.",
  [NUM, INP], [("broadcast", NUM + ":NumericalValueFactory.create"), ("lookup", NUM + ":*NumericalValue.__getitem__, flatten")],
  ["study elements' values"], "Values are reals decided by z3; sizes and containers are enumerated.")
p("C09", "Invalid study data is refused and leaves the study unchanged",
  "Declaring an element is refused with a ValueError exactly when one of its values is out of its domain at some time step or scenario "
  "(negative quantity, capacity, flow or limit, efficiency outside [0,1], ratio not positive), its name is already taken, or it refers to "
  "a missing or identical node. A refused declaration leaves the study exactly as it was.",
  ["inputs", "histories"], "all values at any position, all kinds of elements", "The tests try all-negative scalars only.",
  [INP, NUM], [("validation", INP + ":Study._add_*, add_link, _set_converter_dest")], ["Study fluent API"],
  "Values are reals decided by z3: acceptance is compared with the exact domain predicate on every path.")
p("C10", "A study contains exactly what was declared",
  "Whatever the order of the declarations and whichever selector object they are made through, the study contains exactly the declared "
  "networks, nodes, elements and converters, in declaration order, each with the declared values; arguments left out take their documented default.",
  ["histories", "inputs"], "all sequences of declarations", "The tests declare elements in one fluent chain.",
  [INP], [("fluent selectors", INP + ":NetworkFluentAPISelector, NodeFluentAPISelector")], ["Study.networks, Study.converters"],
  "Three declaration orders over fixed topologies, every number symbolic.")
p("C11", "A study survives serialisation unchanged",
  "Writing a study to its document form and reading it back, through JSON or msgpack, yields a study with the same horizon, scenarios, "
  "version, elements and values that can be extended like the original; neither the study, the document nor the original is altered.",
  ["inputs"], "all studies (names without a colon)", "The tests round-trip one small study.",
  [INP, NUM, UTL], [("to_json/from_json", INP)], ["Study.to_json, Study.from_json"], "Every number symbolic over fixed topologies; real json and msgpack.")
p("C12", "A result survives serialisation unchanged",
  "Writing a result to its document form and reading it back, through JSON or msgpack, yields the same elements, values and timings; "
  "neither the result nor the document read is altered.",
  ["inputs"], "all results (names without a colon)", "The tests round-trip one small result.",
  [OUT, UTL], [("to_json/from_json", OUT)], ["Result.to_json, Result.from_json"], "Every number symbolic over fixed topologies; real json and msgpack.")

import sys
sys.path.insert(0, os.path.join(ROOT, "tools"))
try:
    import gen_more  # noqa
    gen_more.add(p)
except ImportError:
    pass

NOT_APPLICABLE = []
try:
    NOT_APPLICABLE = gen_more.NOT_APPLICABLE
except (NameError, AttributeError):
    pass

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x["prop"], ensure_ascii=False) + "\n")

man = dict(
    version=1, setup_cmd="/opt/venv/bin/python /verif/run.py --selftest",
    checks=[dict(property=x["prop"]["id"],
                 quick_cmd="/opt/venv/bin/python /verif/run.py %s --tier quick" % x["prop"]["id"],
                 thorough_cmd="/opt/venv/bin/python /verif/run.py %s --tier thorough" % x["prop"]["id"],
                 technique=x["technique"] or "symbolic execution of the real source with z3, counterexamples replayed on the unpatched code",
                 level="model_checking", level_note=x["note"]) for x in P if x["prop"]["id"] not in {n["property"] for n in NOT_APPLICABLE}],
    not_applicable=NOT_APPLICABLE,
    notes="No hooks in /repo. Every check executes /repo's current working tree symbolically; see DESIGN.md.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
