"""All checks: property id -> decision procedure"""
from . import c_mem, c_fsm, c_tree, c_cmd, c_path, c_comp, c_prog, c_life

CHECKS = {}
CHECKS.update(c_mem.CHECKS)
CHECKS.update(c_fsm.CHECKS)
CHECKS.update(c_tree.CHECKS)
CHECKS.update(c_cmd.CHECKS)
CHECKS.update(c_path.CHECKS)
CHECKS.update(c_comp.CHECKS)
CHECKS.update(c_prog.CHECKS)
CHECKS.update(c_life.CHECKS)
