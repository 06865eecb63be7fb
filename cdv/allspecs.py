MODS = ['spec_int', 'spec_clast', 'spec_constr', 'spec_data', 'spec_dom', 'spec_loop', 'spec_stride', 'spec_guard', 'spec_pprint', 'spec_minmax', 'spec_for', 'spec_gset', 'spec_mguard']


def install(S):
    import importlib
    for m in MODS:
        importlib.import_module(m).install(S)
