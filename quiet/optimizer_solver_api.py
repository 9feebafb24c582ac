# other forms of the same linear program: RowConstraint, coefficients accumulated in a dict, the two storage cases merged
PROPS = "C01 C02 C03 C04 C05 C06 C07 C28 C30"
O = "hadar/optimizer/lp/optimizer.py"
EDITS = [
    (O, '''            if t == 0:
                const = self.solver.Constraint(stor.init_capacity, stor.init_capacity)
                const.SetCoefficient(stor.var_flow_in, -stor.eff)
                const.SetCoefficient(stor.var_flow_out, 1)
                const.SetCoefficient(stor.var_capacity, 1)
            else:
                const = self.solver.Constraint(0, 0)
                const.SetCoefficient(stor.var_flow_in, -stor.eff)
                const.SetCoefficient(stor.var_flow_out, 1)
                const.SetCoefficient(
                    self.capacities[(t - 1, name_network, name_node, stor.name)], -1
                )
                const.SetCoefficient(stor.var_capacity, 1)
''', '''            first = t == 0
            start = stor.init_capacity if first else 0
            const = self.solver.Constraint(start, start)
            terms = [
                (stor.var_flow_in, -stor.eff),
                (stor.var_flow_out, 1),
                (stor.var_capacity, 1),
            ]
            if not first:
                before = self.capacities[(t - 1, name_network, name_node, stor.name)]
                terms.insert(2, (before, -1))
            for var, coef in terms:
                const.SetCoefficient(var, coef)
'''),
    (O, '''        for cons in consumptions:
            self.objective.SetCoefficient(cons.variable, cons.cost)
            self.logger.debug("Add consumption %s into objective", cons.name)
''', '''        coefs = {c.name: (c.variable, c.cost) for c in consumptions}
        for name, (var, cost) in coefs.items():
            self.objective.SetCoefficient(var, cost)
            self.logger.debug("Add consumption %s into objective", name)
'''),
    (O, '''        load = sum([c.quantity for c in node.consumptions]) * 1.0
''', '''        load = 0.0
        for c in node.consumptions:
            load += c.quantity
'''),
    (O, '''        for (t, net, src, dest), var in self.importations.items():
            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
''', '''        for key in list(self.importations):
            t, net, _, dest = key
            self.constraints[t, net, dest].SetCoefficient(self.importations.pop(key), 1)
'''),
    (O, '''    pool = multiprocessing.Pool()
    serialized_out = pool.map(
        _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))
    )
''', '''    with multiprocessing.Pool() as pool:
        batches = [(study, i_scn) for i_scn in range(study.nb_scn)]
        serialized_out = pool.map(_solve_batch, batches)
'''),
    (O, '''    if status in (
        Solver.INFEASIBLE,
        Solver.UNBOUNDED,
        Solver.ABNORMAL,
        Solver.NOT_SOLVED,
    ):
        raise''', '''    if status not in (Solver.OPTIMAL, Solver.FEASIBLE):
        raise'''),
    (O, '''    for scn in range(0, study.nb_scn):
        variables, modeler, solver = msgpack.unpackb(
            serialized_out[scn], use_list=False, raw=False
        )
''', '''    for scn, packed in enumerate(serialized_out):
        variables, modeler, solver = msgpack.unpackb(packed, use_list=True, raw=False)
'''),
]
