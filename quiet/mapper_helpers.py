# variables built through a helper, keyword arguments, loops instead of comprehensions, results read through zip
PROPS = "C01 C02 C03 C04 C05 C06 C07 C28 C30"
M = "hadar/optimizer/lp/mapper.py"
EDITS = [
    (M, '''        consumptions = [
            LPConsumption(
                name=c.name,
                cost=c.cost[scn, t],
                quantity=c.quantity[scn, t],
                variable=self.solver.NumVar(
                    0, float(c.quantity[scn, t]), name="lol=%s %s" % (c.name, suffix)
                ),
            )
            for c in in_node.consumptions
        ]
''', '''        consumptions = []
        for c in in_node.consumptions:
            asked = c.quantity[scn, t]
            lol = self._var("lol", c.name, asked, suffix)
            consumptions.append(
                LPConsumption(
                    quantity=asked, variable=lol, cost=c.cost[scn, t], name=c.name
                )
            )
'''),
    (M, '''    def get_conv_var(self''', '''    def _var(self, kind, name, upper, suffix):
        label = "{}={} {}".format(kind, name, suffix)
        return self.solver.NumVar(0, float(upper), label)

    def get_conv_var(self'''),
    (M, '''                var_flow_in=self.solver.NumVar(
                    0,
                    float(s.flow_in[scn, t]),
                    "storage_flow_in=%s %s" % (s.name, suffix),
                ),''', '''                var_flow_in=self._var(
                    "storage_flow_in", s.name, s.flow_in[scn, t], suffix
                ),'''),
    (M, '''        for i in range(len(vars.consumptions)):
            out_node.consumptions[i].quantity[scn, t] = (
                vars.consumptions[i].quantity - vars.consumptions[i].variable
            )

        for i in range(len(vars.productions)):
            out_node.productions[i].quantity[scn, t] = vars.productions[i].variable
''', '''        for out, var in zip(out_node.consumptions, vars.consumptions):
            out.quantity[scn][t] = -var.variable + var.quantity

        for out, var in zip(out_node.productions, vars.productions):
            out.quantity[(scn, t)] = var.variable
'''),
    (M, '''        for i in range(len(vars.links)):
            self.networks[network].nodes[node].links[i].quantity[scn, t] = vars.links[
                i
            ].variable
''', '''        i = 0
        while i < len(vars.links):
            row = out_node.links[i].quantity[scn]
            row[t] = vars.links[i].variable
            i += 1
'''),
    (M, '''        for src, var in vars.var_flow_src.items():
            self.converters[name].flow_src[src][scn, t] = var
''', '''        conv = self.converters[name]
        for src in sorted(vars.var_flow_src):
            np.put(conv.flow_src[src][scn], t, vars.var_flow_src[src])
'''),
]
