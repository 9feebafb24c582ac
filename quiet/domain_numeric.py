PROPS = "C01 C03 C08 C09 C10 C11 C12 C13 C29"
N = "hadar/optimizer/domain/numeric.py"
I = "hadar/optimizer/domain/input.py"
T = "hadar/optimizer/domain/output.py"
EDITS = [
    (N, '''        return np.ones(self.horizon * self.nb_scn) * self.value
''', '''        return np.full(self.horizon * self.nb_scn, float(self.value))
'''),
    (N, '''        return self.value.flatten()

''', '''        return self.value.reshape(-1).copy()

'''),
    (N, '''        return np.repeat(self.value.flatten(), self.horizon)
''', '''        return (self.value * np.ones((self.nb_scn, self.horizon))).flatten()
'''),
    (N, '''        return np.tile(self.value, self.nb_scn)
''', '''        return np.concatenate([self.value] * self.nb_scn)
'''),
    (N, '''        return np.all(self.value >= other)
''', '''        return bool((self.value >= other).all())
'''),
    (N, '''            # If scenario are not provided copy timeseries for each scenario
            if value.shape == (self.horizon,):
                return RowNumericValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )

            # If horizon are not provide extend each scenario to full horizon
            if value.shape == (self.nb_scn, 1):
                return ColumnNumericValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )

            # If perfect size
            if value.shape == (self.nb_scn, self.horizon):
                return MatrixNumericalValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )
''', '''            for shape, kind in (
                ((self.horizon,), RowNumericValue),
                ((self.nb_scn, 1), ColumnNumericValue),
                ((self.nb_scn, self.horizon), MatrixNumericalValue),
            ):
                if value.shape == shape:
                    return kind(value, self.horizon, self.nb_scn)
'''),
    (I, '''        if prod.name in [
            p.name for p in self.networks[network].nodes[node].productions
        ]:
            raise ValueError("production name must be unique on a node")

        prod.quantity = self.factory.create(prod.quantity)
        if not prod.quantity >= 0:
            raise ValueError("Production quantity must be positive")

        prod.cost = self.factory.create(prod.cost)
        self.networks[network].nodes[node].productions.append(prod)
''', '''        prods = self.networks[network].nodes[node].productions
        if any(p.name == prod.name for p in prods):
            raise ValueError("production name must be unique on a node")

        quantity = self.factory.create(prod.quantity)
        if not quantity >= 0:
            raise ValueError("Production quantity must be positive")

        prod.quantity, prod.cost = quantity, self.factory.create(prod.cost)
        prods.append(prod)
'''),
    (I, '''        if not (store.eff >= 0 and store.eff <= 1):
            raise''', '''        eff_ok = store.eff >= 0 and store.eff <= 1
        if not eff_ok:
            raise'''),
    (T, '''        dict["flow_src"] = {
            tuple(k.split("::")): v for k, v in dict["flow_src"].items()
        }
        return OutputConverter(**dict)
''', '''        flow_src = {}
        for key in dict["flow_src"]:
            network, node = key.split("::")
            flow_src[network, node] = dict["flow_src"][key]
        return OutputConverter(dict["name"], flow_src, dict["flow_dest"])
'''),
    (T, '''        self.quantity = np.array(quantity)
''', '''        self.quantity = np.array(quantity, copy=True)
'''),
]
