#!/usr/bin/env python3
"""Writes sa/p01_inventory.json: the parameters that public functions leave alone at the reviewed commit (run by hand, never by a check)."""
import json

from sa.project import Project
from sa.rules.p01 import INV, analysed, inventory

json.dump(inventory(analysed(Project())), open(INV, "w"), indent=0, sort_keys=True)
