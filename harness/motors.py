"""The nine machines: classes, state layout, random parameters and states."""
import numpy as np
from gym_electric_motor.physical_systems import electric_motors as em

CLS = {"PermExDc": em.DcPermanentlyExcitedMotor, "ExtExDc": em.DcExternallyExcitedMotor, "SeriesDc": em.DcSeriesMotor,
       "ShuntDc": em.DcShuntMotor, "PMSM": em.PermanentMagnetSynchronousMotor, "SynRM": em.SynchronousReluctanceMotor,
       "EESM": em.ExternallyExcitedSynchronousMotor, "SCIM": em.SquirrelCageInductionMotor, "DFIM": em.DoublyFedInductionMotor}
NX = dict(PermExDc=1, SeriesDc=1, ShuntDc=2, ExtExDc=2, PMSM=3, SynRM=3, EESM=4, SCIM=5, DFIM=5)
NU = dict(PermExDc=1, SeriesDc=1, ShuntDc=1, ExtExDc=2, PMSM=2, SynRM=2, EESM=3, SCIM=2, DFIM=4)
PARAMS = {
    "PermExDc": ["r_a", "l_a", "psi_e", "j_rotor"],
    "ExtExDc": ["r_a", "r_e", "l_a", "l_e_prime", "l_e", "j_rotor"],
    "SeriesDc": ["r_a", "r_e", "l_a", "l_e_prime", "l_e", "j_rotor"],
    "ShuntDc": ["r_a", "r_e", "l_a", "l_e_prime", "l_e", "j_rotor"],
    "PMSM": ["p", "l_d", "l_q", "j_rotor", "r_s", "psi_p"],
    "SynRM": ["p", "l_d", "l_q", "j_rotor", "r_s"],
    "EESM": ["p", "l_d", "l_q", "l_m", "l_e", "j_rotor", "r_s", "r_e", "k"],
    "SCIM": ["p", "l_m", "l_sigs", "l_sigr", "j_rotor", "r_s", "r_r"],
    "DFIM": ["p", "l_m", "l_sigs", "l_sigr", "j_rotor", "r_s", "r_r"],
}


def random_params(rng, t, names):
    d = {}
    for n in names:
        if n == "p":
            d[n] = rng.randrange(1, 7)
        elif n == "k":
            d[n] = rng.uniform(50, 80)
        elif t == "EESM" and n in ("l_m", "l_e", "l_d"):
            # keep the leakage factor sigma = 1 - 1.5 l_m^2 / (l_d l_e) well away from 0
            d[n] = {"l_m": rng.uniform(0.3e-3, 0.8e-3), "l_e": rng.uniform(1.6e-3, 4e-3), "l_d": rng.uniform(1.6e-3, 5e-3)}[n]
        elif n.startswith("r_"):
            d[n] = rng.uniform(0.01, 3.0)
        elif n.startswith("l_"):
            d[n] = 10 ** rng.uniform(-4, -1)
        elif n.startswith("psi"):
            d[n] = rng.uniform(0.02, 0.5)
        else:
            d[n] = 10 ** rng.uniform(-3, 0)
    return d


def u_arg(t, u):
    u = np.array(u, dtype=float)
    return u.reshape(2, 2) if t == "DFIM" else u
