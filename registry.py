"""property id -> rule module"""
import importlib, os
RULES = {}
class _Lazy(dict):
    def __missing__(self, k):
        m = importlib.import_module('rules.' + k.lower())
        self[k] = m
        return m
RULES = _Lazy()
