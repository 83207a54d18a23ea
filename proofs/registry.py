"""All proof scenarios: property id -> [(name, scenario, contracts used)]."""
from . import numeric, lists, pixelwise, luts, bits, tables, sampling, serial, files, images, tools

SCEN = {}
for _m in (numeric, lists, pixelwise, luts, bits, tables, sampling, serial, files, images, tools):
    for _k, _v in _m.SCEN.items(): SCEN.setdefault(_k, []).extend(_v)
