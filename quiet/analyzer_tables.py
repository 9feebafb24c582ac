# tables built from pieces and concatenated, rac by groupby/unstack, balance through boolean masks, cost through a helper
PROPS = "C13 C14 C15 C16 C17 C18 C25 C26 C30"
A = "hadar/analyzer/result.py"
import re
_src = open("/repo/" + A).read()
_a = _src.index("        prod_used = (\n")
_b = _src.index("        return (prod_avail - prod_used)")
_c = _src.index("        if c:\n            cons = self.network(network)")
_d = _src.index("        return cost\n", _c)
EDITS = [
    (A, _src[_a:_b], '''        def total(df, column):
            df = df[df["network"] == network]
            mat = df.groupby(["scn", "t"])[column].sum().unstack("t").values
            return fill_width_zeros(mat)

        prod_used = total(self.production, "used")
        prod_avail = total(self.production, "avail")
        cons_asked = total(self.consumption, "asked")
        cons_given = total(self.consumption, "given")

'''),
    (A, _src[_c:_d], '''        def spread(serie):
            serie = serie.groupby(level=["scn", "t"]).sum().sort_index()
            return serie.to_numpy().reshape((self.nb_scn, self.horizon))

        def query():
            return self.network(network).node(node).scn().time()

        if c:
            cons = query().consumption()
            cost = cost + spread(cons["cost"] * (cons["asked"] - cons["given"]))
        if p:
            prod = query().production()
            cost = cost + spread(prod["cost"] * prod["used"])
        if s:
            stor = query().storage()
            cost = cost + spread(stor["cost"] * stor["capacity"])
        if l:
            link = query().link()
            cost = cost + spread(link["cost"] * link["used"])
        if v:
            conv = query().from_converter()
            cost = cost + spread(conv["cost"] * conv["flow"])

'''),
    (A, '''        n_prod = 0
        for n, net in result.networks.items():
            for node in net.nodes.keys():
                for i, rp in enumerate(net.nodes[node].productions):
                    slices = prod.index[n_prod * h * scn : (n_prod + 1) * h * scn]
                    sp = study.networks[n].nodes[node].productions[i]
                    prod.loc[slices, "cost"] = sp.cost.flatten()
                    prod.loc[slices, "name"] = rp.name
                    prod.loc[slices, "node"] = node
                    prod.loc[slices, "network"] = n
                    prod.loc[slices, "avail"] = sp.quantity.flatten()
                    prod.loc[slices, "used"] = rp.quantity.flatten()
                    prod.loc[slices, "t"] = np.tile(np.arange(h), scn)
                    prod.loc[slices, "scn"] = np.repeat(np.arange(scn), h)

                    n_prod += 1

        return prod
''', '''        parts = []
        for n, net in result.networks.items():
            for node, out_node in net.nodes.items():
                in_node = study.networks[n].nodes[node]
                for sp, rp in zip(in_node.productions, out_node.productions):
                    parts.append(
                        pd.DataFrame(
                            {
                                "cost": sp.cost.flatten(),
                                "avail": sp.quantity.flatten(),
                                "used": rp.quantity.flatten(),
                                "name": rp.name,
                                "node": node,
                                "network": n,
                                "t": np.tile(np.arange(h, dtype=float), scn),
                                "scn": np.repeat(np.arange(scn, dtype=float), h),
                            }
                        )
                    )

        return pd.concat(parts, ignore_index=True) if parts else prod
'''),
    (A, '''        im = pd.pivot_table(
            self.link[mask][["used", "scn", "t"]], index=["scn", "t"], aggfunc=np.sum
        )
        if im.size > 0:
            balance += -im["used"].values.reshape(self.nb_scn, self.horizon)
''', '''        if mask.any():
            im = self.link.loc[mask, ["scn", "t", "used"]].groupby(["scn", "t"]).sum()
            balance -= im["used"].values.reshape(self.nb_scn, -1)
'''),
]
