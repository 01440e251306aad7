"""C12: weighted-sum-of-errors reward. Spec: Reward; MCReward (design), RewardTrace (conformance)."""
import envs, rewards


def run(c):
    some = envs.IDS if not c.quick else c.rng.sample(envs.IDS, 27) * 2
    rewards.run(c, "C12", [(rewards.formula, some if c.quick else envs.IDS * 10), (rewards.rewarded, envs.IDS if c.quick else envs.IDS * 6)])
    c.assumptions += ["Weights that sum to zero (warned by the code) and gamma = 1 are outside the documented formulas"]
