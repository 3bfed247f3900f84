import json


class Layout(dict):
    def __getattr__(self, name):
        return self.get(name)


class Figure:
    """The traces and the layout as they were given, and what was asked to be saved."""

    def __init__(self, data=(), layout=()):
        self.data = list(data)
        self.layout = Layout(layout)
        self.saved = []

    def plotly_restyle(self, restyle_data, trace_indexes=None, **kwargs):
        for trace in self.data:
            trace.update(restyle_data)

    def plotly_relayout(self, relayout_data, **kwargs):
        self.layout.update(relayout_data)

    def plotly_update(self, restyle_data=None, relayout_data=None, trace_indexes=None, **kwargs):
        if restyle_data:
            self.plotly_restyle(restyle_data, trace_indexes)
        if relayout_data:
            self.plotly_relayout(relayout_data)

    def update_layout(self, dict1=None, overwrite=False, **kwargs):
        self.layout.update(dict1 or {}, **kwargs)
        return self

    def update_traces(self, patch=None, **kwargs):
        for trace in self.data:
            trace.update(patch or {}, **kwargs)
        return self

    def add_trace(self, trace, **kwargs):
        self.data.append(trace)
        return self

    def add_traces(self, data, **kwargs):
        self.data.extend(data)
        return self

    def show(self, *args, **kwargs):
        pass

    def to_dict(self):
        return dict(data=self.data, layout=self.layout)

    def write_image(self, file, format=None, scale=None, width=None, height=None, **kwargs):
        self.saved.append(dict(file=file, format=format, scale=scale, width=width, height=height))

    def to_json(self):
        return json.dumps(dict(data=self.data, layout=self.layout))
