# stages written with numpy, loops and comprehensions
PROPS = "C19 C20 C21 C22 C23"
P = "hadar/workflow/pipeline.py"
S = "hadar/workflow/shuffler.py"
EDITS = [
    (P, '''        return timeline.clip(lower=self.lower, upper=self.upper)
''', '''        if self.lower is not None:
            timeline = timeline.clip(lower=self.lower)
        if self.upper is not None:
            timeline = timeline.clip(upper=self.upper)
        return timeline
'''),
    (P, '''        timeline.columns = timeline.columns.map(lambda i: (i[0], self._rename(i[1])))
        return timeline
''', '''        timeline.columns = MultiIndex.from_tuples(
            [(scn, self._rename(name)) for scn, name in timeline.columns]
        )
        return timeline
'''),
    (P, '''        return self.rename[name] if name in self.rename else name
''', '''        return self.rename.get(name, name)
'''),
    (P, '''        return timeline.drop(self.names, axis=1, level=1)
''', '''        keep = [c for c in timeline.columns if c[1] not in self.names]
        return timeline[keep]
'''),
    (P, '''        for begin, duration in zip(faults_begin, faults_duration):
            loss_qt[begin : (begin + duration)] += self.loss
''', '''        for i in range(nb_faults):
            end = min(faults_begin[i] + faults_duration[i], horizon)
            for t in range(faults_begin[i], end):
                loss_qt[t] = loss_qt[t] + self.loss
'''),
    (P, '''        return all(i in names for i in self.inputs)
''', '''        return set(self.inputs).issubset(set(names))
'''),
    (P, '''        scenarios = Stage.get_scenarios(timeline)

        output = []
        for scn in scenarios:
            data = self._process_scenarios(scn, timeline[scn].copy())
            # declared outputs first, followed by columns not used by this stage
            others = [c for c in data.columns if c not in self.plug.outputs]
            output.append(data[list(self.plug.outputs) + others])
        return pd.concat(output, axis=1, keys=scenarios)
''', '''        output = {}
        for scn in Stage.get_scenarios(timeline):
            data = self._process_scenarios(scn, timeline[scn].copy())
            first = list(self.plug.outputs)
            output[scn] = data[first + [c for c in data.columns if c not in first]]
        return pd.concat(list(output.values()), axis=1, keys=list(output.keys()))
'''),
    (P, '''        for stage in self.stages:
            timeline = stage(timeline.copy())

        return timeline
''', '''        result = timeline
        for i in range(len(self.stages)):
            result = self.stages[i](result.copy())

        return result
'''),
    (S, '''        drop_columns = res.columns.get_level_values(1).unique().drop(TO_SHUFFLER)
        if drop_columns.size > 0:
            res = res.drop(drop_columns, axis=1, level=1)
        return res.values.T
''', '''        keep = [c for c in res.columns if c[1] == TO_SHUFFLER]
        return res[keep].to_numpy().transpose()
'''),
    (S, '''        pool = multiprocessing.Pool()
        res = pool.map(compute, ((tl, name) for name, tl in self.timelines.items()))

        # Sample here, samplers sent to workers start all with the same random state
        return {
            name: Timeline(data, sampler=self.timelines[name].sampler).sample(nb_scn)
            for name, data in res
        }''', '''        with multiprocessing.Pool() as pool:
            res = dict(pool.map(compute, [(tl, n) for n, tl in self.timelines.items()]))

        shuffled = {}
        for name in res:
            tl = Timeline(data=res[name], sampler=self.timelines[name].sampler)
            shuffled[name] = tl.sample(nb_scn)
        return shuffled'''),
    (S, '''        return self.data[sampling]
''', '''        return np.take(self.data, sampling, axis=0)
'''),
]
