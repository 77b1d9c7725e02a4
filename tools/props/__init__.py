"""The properties: for each one, what is generated and what it is held against."""

from . import prim, frame, valid, misc

ALL = {}
for m in (prim, frame, valid, misc):
    for k, f in vars(m).items():
        if len(k) == 3 and k[0] == 'c' and k[1:].isdigit():
            ALL[k.upper()] = f
