import json

from .graph_objects import Figure


def from_json(value, output_type="Figure", skip_invalid=False, engine=None):
    content = json.loads(value)
    return Figure(content.get("data", []), content.get("layout", {}))
