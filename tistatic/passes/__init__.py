"""Registry of the properties and the passes that decide them."""
import importlib
import json
import os

from .specs import PROPS


def load(prop):
    mod, fn = PROPS[prop]["pass"].split(":")
    return getattr(importlib.import_module("tistatic.passes." + mod), fn)
