"""pieces shared by the checks which execute histories"""
from ..machine import Sys

RARE = ['rare_skewed', 'rare_aligned', 'rare_yawed', 'rare_ground', 'rare_ground_at_height', 'rare_prescribed_skew',
        'rare_wind_changed_after_loading', 'rare_several_cylinders', 'rare_query_before_loading', 'rare_model_VC',
        'rare_model_VCFF', 'rare_model_VD', 'rare_model_SS', 'rare_longi', 'rare_root', 'rare_no_wake',
        'rare_requery_after_update']

REAL = ['wiz.WindTurbine', 'wiz.WindFarm', 'wiz.Solver', 'wiz.VortexCylinder', 'wiz.VortexCylinderSkewed',
        'wiz.VortexDoublet', 'wiz.VortexLine', 'wiz.SelfSimilar', 'wiz.elliptic', 'numpy', 'scipy']
STUBS = ['standard output (simulated console)', 'user callbacks of update_loading']
ASSUMPTIONS = ['the independent reference model in dst/model.py (validated against Biot-Savart identities and the tree)',
               'a new object in a freshly loaded copy of the package has no history',
               'comparison tolerance 1e-8 of the velocity scale (1e-6 against the reference), points closer than 0.02 R '
               '(0.12 R) to a vortex sheet are not compared',
               'seeded sampling: histories that were not generated are not decided']


def play(plan, ctx, **kw):
    s = Sys(ctx=ctx)
    with s.w:
        for op in plan['ops']:
            s.step(op, **kw)
        s.final()
    return s
