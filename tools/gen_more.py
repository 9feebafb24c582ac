"""properties C13 to C30 (imported by gen.py)"""
ANA = "hadar/analyzer/result.py"
PIP = "hadar/workflow/pipeline.py"
SHU = "hadar/workflow/shuffler.py"
REM = "hadar/optimizer/remote/optimizer.py"
ABC = "hadar/viewer/abc.py"
HTM = "hadar/viewer/html.py"
NOT_APPLICABLE = []

AW = "The tests build one small study and result with fixed numbers and compare with a fixed table."
AN = ("Every number of the study and of the result is an unbounded real decided by z3, pandas runs as is on columns of symbols; "
      "topologies, names and filters are concrete. Trusted: pandas, reals stand for floats.")
WW = "The tests run each stage on one fixed frame; they cannot cover every value, layout and draw."
WN = ("Cells, bounds, losses and weights are unbounded reals, every random draw is a symbol; layouts, sizes and stage sequences are "
      "enumerated. Trusted: pandas, numpy's generator stays within the bounds it is given.")
VW = "The tests compare a hash of one figure of one study."
VN = ("Numbers of study and result are unbounded reals, the drawn element, kind, time step and scenario symbolic choices; five small "
      "topologies. Trusted: plotly keeps the data it is given. Colours, layout and hover templates are not decided.")


def add(p):
    p("C13", "Analyzer tables list every consumption, production, storage and link",
      "The analyzer's consumption, production, storage and link tables have exactly one row per declared element, scenario and time step, "
      "carrying the network, node and name of the element, the study's values (cost, asked, available, limits, efficiency, initial level) "
      "and the result's values at that scenario and time step; the counts of elements and the lists of nodes match the study.",
      ["inputs", "configurations"], "all studies and results, every element, scenario and time step", AW,
      [ANA], [("tables", ANA + ":ResultAnalyzer._build_*")], ["ResultAnalyzer.consumption/production/storage/link, get_elements_inside, nodes"], AN)
    p("C14", "Analyzer tables list every converter source and destination",
      "The analyzer's converter tables have exactly one row per converter source (with its ratio, the limit on the source side, which is the "
      "converter's limit divided by the ratio, and the flow taken) and one per converter destination (with the converter's limit, cost and "
      "the flow delivered) for every scenario and time step.",
      ["inputs", "configurations"], "all studies with converters and their results", AW,
      [ANA], [("converter tables", ANA + ":ResultAnalyzer._build_src_converter, _build_dest_converter")],
      ["ResultAnalyzer.src_converter, dest_converter"], AN)
    p("C15", "A query returns exactly the selected rows, whatever its order",
      "A query network(..) followed by node, element, scn and time selectors in any order returns the rows of the table that match every "
      "filter (a single value, a list, a tuple, a slice, open or not, or none), no other row, with the values of the table. Levels are those "
      "of the calls in order, the leading ones fixed to a single value removed. A query that repeats a level, or asks two kinds of elements, is "
      "refused. A partial query can be continued several times independently, "
      "and querying alters nothing.",
      ["inputs", "histories"], "all studies and results, all orders of selectors and kinds of filters", "The tests try a few orders on one table.",
      [ANA], [("fluent query", ANA + ":FluentAPISelector"), ("filters", ANA + ":NetworkIndex, Index")], ["ResultAnalyzer.network(...)..."], AN)
    p("C16", "Reported costs add up every cost of the scope",
      "For every scenario and time step, the cost reported for a node, a network or the study is the sum over the elements in that scope of "
      "unserved consumption, production used, stored energy, outgoing exchanges and converter output (at the destination), each times its unit cost.",
      ["inputs", "configurations"], "all studies and results, every scope, scenario and time step", AW,
      [ANA], [("cost", ANA + ":ResultAnalyzer.get_cost")], ["ResultAnalyzer.get_cost"], AN)
    p("C17", "Reported balance is what a node exports minus what it imports",
      "For every node, scenario and time step, the reported balance is the sum of the flows on links leaving the node minus the sum of the "
      "flows on links of the same network arriving at it.",
      ["inputs", "configurations"], "all studies and results, every node, scenario and time step", AW,
      [ANA], [("balance", ANA + ":ResultAnalyzer.get_balance")], ["ResultAnalyzer.get_balance"], AN)
    p("C18", "Remaining available capacity is spare production minus unserved demand",
      "For every network, scenario and time step, the remaining available capacity is the production available but not used in that network "
      "minus the consumption asked but not served in it.",
      ["inputs", "configurations"], "all studies and results, every network, scenario and time step", AW,
      [ANA], [("rac", ANA + ":ResultAnalyzer.get_rac")], ["ResultAnalyzer.get_rac"], AN)
    p("C19", "Plugs link exactly when outputs cover inputs",
      "Linking two restricted plugs is accepted exactly when every input of the second is an output of the first; the linked plug takes the "
      "inputs of the first and provides the outputs of the second and the outputs of the first that the second does not take. A free plug is "
      "neutral on either side. Linking alters neither plug. Data is computable exactly when it has every input.",
      ["inputs"], "all sets of column names", "The tests link one pair of plugs.",
      [PIP], [("plug algebra", PIP + ":FreePlug, RestrictedPlug")], ["RestrictedPlug, FreePlug: linkable_to, join/+, computable"],
      "Column names are symbolic: z3 decides every pattern of equal and different names up to 3 names a side.")
    p("C20", "A pipeline computes its stages in order and is never altered by use",
      "A pipeline applied to a timeline gives what its stages give one after the other; stages that do not fit together, what is not a stage, "
      "and data lacking an input of the pipeline are refused with a ValueError. Building, extending or running a pipeline alters neither the data, nor the "
      "stages, nor any other pipeline made from them.",
      ["inputs", "histories"], "all timelines, sequences of stages and reuses", WW,
      [PIP], [("composition", PIP + ":Pipeline, Stage.__add__"), ("check", PIP + ":Pipeline.assert_computable")], ["Pipeline(...), stage + stage"], WN)
    p("C21", "Each stage transforms every scenario and column as documented",
      "Clip bounds every cell, Rename and Drop act on the named columns of every scenario, RepeatScenario(n) repeats the scenarios n times "
      "under consecutive labels, a focus stage processes each scenario on its own; everything else, the time index and the input frame "
      "included, passes unchanged. Frames with plain columns are scenario 0.",
      ["inputs"], "all timelines, column layouts and time indexes", WW,
      [PIP], [("stages", PIP + ":Clip, Rename, Drop, RepeatScenario, FocusStage")], ["stage(timeline)"], WN)
    p("C22", "Faults remove whole losses of the declared durations",
      "Whatever is drawn, Fault lowers the quantity of each scenario by a whole number of losses at each step, made of faults that start "
      "within the horizon and last between downtime_min and downtime_max steps (cut at the horizon): none when the frequency is zero, "
      "one start per step when it is one. Every step and duration can be hit. Other columns pass, and a seed makes runs identical.",
      ["inputs"], "all timelines, losses, frequencies and random draws", WW,
      [PIP], [("fault", PIP + ":Fault._process_scenarios")], ["Fault(...)(timeline)"], WN)
    p("C23", "Shuffled scenarios are whole scenarios of their own source",
      "Shuffling n scenarios returns for every source (raw data or pipeline) n rows, each being, unaltered and in time order, one scenario of "
      "that source (the pipeline's output for a pipeline); every scenario can be drawn and sources are generated and drawn independently. A pipeline that "
      "cannot run on its data or does not end in the shuffler is refused.",
      ["inputs", "schedules"], "all sources, sizes and random draws", "The tests mock the sampler on one example.",
      [SHU, PIP], [("sampling", SHU + ":Shuffler.shuffle, TimelineSampler"), ("pipeline check", SHU + ":Shuffler.add_pipeline")],
      ["Shuffler.add_data, add_pipeline, shuffle"], WN)
    p("C24", "Remote solving posts the study once and follows the job to its end",
      "Whatever the server answers, the client posts the study's document once to the given server with the token, follows that job until it "
      "is terminated or failed, and returns the result the server sent, unchanged. A failed job or an HTTP error is reported as an error, "
      "never as a result; nothing is asked after the end; the study is left unchanged.",
      ["fault_sequences", "inputs"], "all sequences of server answers, all studies and results", "The tests mock one fixed conversation.",
      [REM], [("protocol", REM + ":_solve_remote_wrap"), ("codes", REM + ":check_code")], ["RemoteOptimizer(url, token).solve(study)"],
      "Each server answer is a symbolic choice, numbers of study and result are unbounded reals; at most 4 (thorough 7) polls. The HTTP "
      "library is replaced at Session.request.")
    p("C25", "Element graphs show the element's own values",
      "The timeline of an element shows, per scenario, its values over the study's time axis; its monotone shows the selected values in "
      "decreasing order from 0 to 100 %; its distribution shows each selected value once, green when the network has remaining capacity then "
      "and red otherwise; storage candles open and close at the levels around each time step. Drawing alters no data.",
      ["inputs", "configurations"], "all studies and results, every element, time step and scenario", VW,
      [ABC, HTM], [("element graphs", ABC + ":*FluentAPISelector"), ("drawing", HTM + ":HTMLElementPlotting")],
      ["HTMLPlotting(...).network().node().<element>().timeline/monotone/gaussian/candles"], VN)
    p("C26", "A node's stack shows each of its flows once, with its value",
      "The stack of a node has one area per production, discharge, converter output and import and one line per consumption, charge, "
      "converter input and export, for the chosen scenario; the thickness of each at each time step is that flow's value (import and export: "
      "the negative and positive part of the balance).",
      ["inputs", "configurations"], "all studies and results, every node and scenario, both kinds", VW,
      [ABC, HTM], [("stack", ABC + ":NodeFluentAPISelector.stack")], ["HTMLPlotting(...).network().node().stack()"], VN)
    p("C27", "Network graphs show the remaining capacity and the exchanges",
      "The RAC matrix shows the remaining capacity of every scenario and time step, scaled to the largest surplus or lack, and the share of "
      "situations without lack; the map puts every node at its coordinates with its balance and draws an arrow from exporter to importer "
      "with the net exchange for each linked pair, at the chosen time step and scenario.",
      ["inputs", "configurations"], "all studies and results, every network, time step and scenario", VW,
      [ABC, HTM], [("network graphs", ABC + ":NetworkFluentAPISelector.rac_matrix, map"), ("drawing", HTM + ":HTMLElementPlotting.matrix, map_exchange")],
      ["HTMLPlotting(...).network().rac_matrix/map"], VN)
    p("C28", "Solving depends only on the study and leaves it unchanged",
      "Solving leaves the study as it was declared, and can be repeated. The optimum of a study depends on its content only: not on "
      "studies solved before it (even of the same shape or names), nor on whether it was declared at once or grown between solves. A "
      "result returned earlier is not altered by later solves or changes, and shares nothing with the study.",
      ["histories", "inputs"], "all studies and values, sequences of declarations and solves",
      "The tests solve each study once, in a fresh optimizer.",
      ["hadar/optimizer/lp/optimizer.py", "hadar/optimizer/lp/mapper.py", "hadar/optimizer/optimizer.py"],
      [("solve", "hadar/optimizer/lp/optimizer.py:solve_lp, _solve_batch"), ("mappers", "hadar/optimizer/lp/mapper.py:InputMapper, OutputMapper")],
      ["LPOptimizer().solve(study), several times"],
      "Every quantity is an unbounded real; histories of up to 5 declarations and solves over the listed topologies. The recorded linear "
      "programs are compared term by term by z3. Trusted: ortools, reals stand for floats.")
    p("C29", "Studies and results are equal exactly when their content is",
      "Comparing two studies, or two results, always answers: equal when they have the same sizes, elements and numbers (built by the same "
      "declarations, copied, or written and read back), different as soon as one number, name, element or size differs; == and != agree, in "
      "both directions.",
      ["inputs"], "all studies and results, every field and cell",
      "The tests compare studies of one time step and one scenario, where an array has a single cell.",
      ["hadar/optimizer/utils.py", "hadar/optimizer/domain/input.py", "hadar/optimizer/domain/output.py", "hadar/optimizer/domain/numeric.py"],
      [("comparison", "hadar/optimizer/utils.py:DTO.__eq__")], ["study == study, result == result"],
      "Every number is an unbounded real; one field of a study is given other symbols, or one cell of a result, which one is a symbolic "
      "choice. Trusted: reals stand for floats. The same values given in another shape (a number, a full table) are not compared.")
    p("C30", "The accounts of a solved study close, also after saving and reloading",
      "For every solved study, the reported costs of all time steps add up to the cost of the returned plan, the cost of the study is that "
      "of its networks and the cost of a network that of its nodes; the balances of a network's nodes cancel out, and at each node what "
      "the tables show as produced, discharged and converted in, less what is served, charged and converted out, is the reported balance; "
      "the remaining capacity is what the tables leave. Study and result written and read back give the same analysis.",
      ["inputs", "configurations"], "all studies, every scenario and time step",
      "The tests never analyse a solved study: they build small results by hand.",
      [ANA, "hadar/optimizer/lp/optimizer.py", "hadar/optimizer/lp/mapper.py", "hadar/optimizer/domain/output.py"],
      [("solve", "hadar/optimizer/lp/optimizer.py:solve_lp"), ("analysis", ANA + ":ResultAnalyzer")],
      ["ResultAnalyzer(study, LPOptimizer().solve(study))"],
      "Every quantity is an unbounded real, the plan any point of the recorded linear program; the accounts are decided by z3 over the "
      "tables pandas builds. Trusted: ortools, pandas, reals stand for floats.")
