# selection through query masks, isin, xs; counting with loops
PROPS = "C13 C14 C15 C16 C17 C18 C26"
A = "hadar/analyzer/result.py"
EDITS = [
    (A, '''        names = [i.column for i in indexes]
        mask = reduce(lambda a, b: a & b, (i.filter(df) for i in indexes))
        pt = pd.pivot_table(data=df[mask], index=names)
''', '''        names = []
        mask = pd.Series(True, index=df.index)
        for i in indexes:
            names.append(i.column)
            mask &= i.filter(df)
        pt = df.loc[mask].pivot_table(index=names, aggfunc="mean")
'''),
    (A, '''        if self.all:
            return df[self.column].notnull()
        return df[self.column].isin(self.index)
''', '''        column = df[self.column]
        return column.notna() if self.all else column.isin(list(self.index))
'''),
    (A, '''            mask &= (df[self.column] >= self.start) & (
                (df[self.column] - self.start) % self.step == 0
            )
''', '''            column = df[self.column]
            after = column.ge(self.start)
            mask = mask & after & ((column - self.start).mod(self.step) == 0)
'''),
    (A, '''            df = df.loc[indexes[0].index[0]].copy()
''', '''            df = df.xs(indexes[0].index[0], level=0)
'''),
    (A, '''                sum(
                    (network, node) in conv.src_ratios
                    for conv in self.study.converters.values()
                ),
''', '''                len(
                    [
                        name
                        for name, conv in self.study.converters.items()
                        if (network, node) in conv.src_ratios.keys()
                    ]
                ),
'''),
    (A, '''        if network is None and node is None:
            for network in self.study.networks.keys():
                size += self.get_elements_inside(network=network)
            return size
''', '''        if network is None and node is None:
            return sum(
                (self.get_elements_inside(network=n) for n in self.study.networks),
                size,
            )
'''),
]
