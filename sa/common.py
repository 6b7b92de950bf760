"""Shared set-up: trees, effect inference cache."""
import hashlib
import os
import pickle

from . import modref


def ref_infos(tree):
    return modref.infer(tree, list(tree.functions()))
