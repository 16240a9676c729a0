"""One module for each property."""
import importlib
import os


def identifiers():
    return sorted(name[:-3].upper() for name
                  in os.listdir(os.path.dirname(__file__))
                  if name[0] == 'c' and name[1:3].isdigit()
                  and name.endswith('.py'))


def get(identifier):
    return importlib.import_module('dst.props.' + identifier.lower())
