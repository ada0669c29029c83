"""Property id -> module that decides it"""
import importlib

MODULES = {}
for mod, ids in (('p_math', 'C01 C02 C03 C04 C05 C06'), ('p_fk', 'C07 C08 C09 C10'), ('p_subproblem', 'C11 C12 C13'),
                 ('p_ik', 'C14 C15 C16 C17 C18 C19'), ('p_purity', 'C20 C30'), ('p_urdf', 'C21 C22'), ('p_rr', 'C23 C24'),
                 ('p_tess', 'C25 C26 C27 C31'), ('p_ros', 'C28 C29')):
    for i in ids.split():
        MODULES[i] = mod


def load(pid):
    return importlib.import_module('rmon.' + MODULES[pid]).PROPS[pid]
