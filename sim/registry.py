"""Which scenario decides which property, and how many runs each tier makes."""
import importlib

TABLE = {
    # property: (module, quick runs, thorough runs)
    'A01': ('archive', 4500, 60000),
    'A02': ('archive', 4000, 60000),
    'A03': ('archive', 4500, 60000),
    'A04': ('repack', 3600, 60000),
    'A05': ('archive', 3200, 40000),
    'A06': ('archive', 5000, 60000),
    'A07': ('readers', 3500, 30000),
    'A08': ('archive', 5000, 60000),
    'A09': ('archive', 3600, 60000),
    'T01': ('text', 12000, 100000),
    'T02': ('text', 12000, 100000),
    'N01': ('quotes', 16000, 150000),
    'R01': ('resample', 18000, 120000),
    'R02': ('resample', 18000, 120000),
    'M01': ('memory', 18000, 150000),
    'M02': ('memory', 17000, 100000),
    'M03': ('memory', 24000, 150000),
    'M04': ('memory', 24000, 150000),
    'M05': ('memory', 10000, 120000),
    'D01': ('install', 560, 9000),
}


def scenario(prop):
    mod, _, _ = TABLE[prop]
    return importlib.import_module('scn_' + mod)


def runs(prop, tier):
    return TABLE[prop][1 if tier == 'quick' else 2]
