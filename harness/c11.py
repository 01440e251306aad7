"""C11: constraint monitoring. Spec: Reward; MCReward (design), RewardTrace (conformance)."""
import envs, rewards


FLUX = ["Cont-CC-SCIM-v0", "Finite-TC-SCIM-v0", "Cont-SC-DFIM-v0", "Finite-CC-DFIM-v0"]      # with a flux observer the state space is not normalised


def run(c):
    some = envs.IDS if not c.quick else c.rng.sample(envs.IDS, 18) * 3
    rewards.run(c, "C11", [(rewards.monitor, some + FLUX * 3 if c.quick else envs.IDS * 10 + FLUX * 20), (rewards.episodes, envs.IDS if c.quick else envs.IDS * 6)])
    c.assumptions += ["Squared constraints are not judged for states whose sum of squares is within 1e-9 of 1 without being 1"]
