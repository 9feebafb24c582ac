PROPS = "C25 C26 C27"
V = "hadar/viewer/abc.py"
H = "hadar/viewer/html.py"
EDITS = [
    (V, '''            if sort_col:
                data.sort_values(sort_col, ascending=False, inplace=True)
            ids = data.index.get_level_values(id_col).unique()
            return [(i, data.loc[i][value_col].sort_index().values) for i in ids]
''', '''            if sort_col is not None:
                data = data.sort_values(by=sort_col, ascending=False)
            elements = []
            for i in data.index.get_level_values(id_col).unique():
                serie = data.loc[i, value_col].sort_index()
                elements.append((i, serie.to_numpy()))
            return elements
'''),
    (V, '''        im = -np.clip(balance, None, 0)
        if not (im == 0).all():
            areas.append(("import", im))
''', '''        im = np.maximum(-balance, 0)
        if im.any():
            areas.append(("import", im))
'''),
    (V, '''        exp = np.clip(balance, 0, None)
        if not (exp == 0).all():
            lines.append(("export", exp))
''', '''        exp = np.where(balance > 0, balance, 0)
        if np.any(exp != 0):
            lines.append(("export", exp))
'''),
    (V, '''        open = np.append(
            df["init_capacity"][0], (df["flow_in"] * df["eff"] - df["flow_out"]).values
        )
        open = open.cumsum()
        close = open[1:]
        open = open[:-1]
''', '''        moves = (df["flow_in"] * df["eff"] - df["flow_out"]).to_numpy()
        close = df["init_capacity"].iloc[0] + np.cumsum(moves)
        open = close - moves
'''),
    (H, '''        y.sort()
        y = y[::-1]
        x = np.linspace(0, 100, y.size)
''', '''        y = -np.sort(-y)
        x = np.linspace(0, 100, len(y))
'''),
    (H, '''        stack = np.zeros_like(self.time_index, dtype=float)
        for i, (name, data) in enumerate(areas):
            stack += data
            fig.add_trace(
                go.Scatter(
                    x=self.time_index,
                    y=stack.copy(),
''', '''        stack = np.zeros(len(self.time_index))
        for i, (name, data) in enumerate(areas):
            stack = stack + data
            fig.add_trace(
                go.Scatter(
                    x=self.time_index,
                    y=stack,
'''),
    (H, '''        stack = np.zeros_like(self.time_index, dtype=float)
        stacked_lines = []
        for i, (name, data) in enumerate(lines):
            stack += data
            stacked_lines.append((name, stack.copy()))

        for i, (name, data) in enumerate(stacked_lines[::-1]):
''', '''        stacked_lines = []
        if lines:
            heights = np.cumsum([data for _, data in lines], axis=0)
            stacked_lines = [(n, h) for (n, _), h in zip(lines, heights)]

        for i, (name, data) in enumerate(reversed(stacked_lines)):
'''),
    (H, '''            x[x > 0] /= np.max(x[x > 0], initial=0)
            x[x < 0] /= -np.min(x[x < 0], initial=0)
            return x
''', '''            up, down = x > 0, x < 0
            if up.any():
                x[up] = x[up] / x[up].max()
            if down.any():
                x[down] = x[down] / abs(x[down].min())
            return x
'''),
    (H, '''        green = qt[rac >= 0]
        red = qt[rac < 0]
''', '''        failed = np.asarray(rac) < 0
        green, red = qt[~failed], qt[failed]
'''),
]
