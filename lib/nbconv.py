"""Converters between the notebook and the page, as a user would define them."""
import json


def wrap(x):
    t = "None" if x is None else x if isinstance(x, str) else x.to_json() if hasattr(x, "to_json") else json.dumps(x)
    return "<" + t + ">"


def tag(d):
    return d + "!"


FC = {"tag": tag}
PC = {"wrap": wrap}
