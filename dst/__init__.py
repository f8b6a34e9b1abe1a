""" Deterministic simulation of probayes: see /verif/DESIGN.md. """
import os
if os.environ.get('VERIF_COV'):
  from dst import cover
