"""C08 rider lean model against the first-principles 3-DOF model in lean.qnt."""
import lean


def run(chk):
    chk.rule = 'a case is one call (base parameters, scalar/array overrides) on a rider lean model'
    lean.run_sessions(chk, chk.scale(48, 600), 6, 'step', lean.visit_full)
