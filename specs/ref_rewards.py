"""Reference semantics of the reward sharing schemes (documentation: docs/configuration.md, CIP-7, CIP-50)."""
from logic.reward_schemes import CardanoRSS, SimplifiedRSS, FlatPledgeBenefitRSS, CurvePledgeBenefitRSS, CIP50RSS

TOTAL_REWARDS = 1


def rss_init(self, k, a0):
    self.k = k
    self.a0 = a0


def curve_init(self, k, a0, crossover_factor=8, curve_root=3):
    self.k = k
    self.a0 = a0
    self.crossover_factor = crossover_factor
    self.curve_root = curve_root


def rss_k(self):
    return self._k


def rss_set_k(self, k_value: float):
    if k_value == 0:
        raise ValueError('')
    self._k = int(k_value)
    self.global_saturation_threshold = TOTAL_REWARDS / k_value


def saturation_threshold(self, pool_pledge):
    return self.global_saturation_threshold


def saturation_threshold_cip50(self, pool_pledge):
    return min(self.a0 * pool_pledge, self.global_saturation_threshold)


def reward_cardano(self, pool_pledge, pool_stake):
    beta = self.global_saturation_threshold
    stake, pledge = min(pool_stake, beta), min(pool_pledge, beta)
    return TOTAL_REWARDS / (1 + self.a0) * (
            stake + pledge * self.a0 * (stake - pledge * (beta - stake) / beta) / beta)


def reward_simplified(self, pool_pledge, pool_stake):
    beta = self.global_saturation_threshold
    stake, pledge = min(pool_stake, beta), min(pool_pledge, beta)
    return TOTAL_REWARDS / (1 + self.a0) * stake * (1 + self.a0 * pledge / beta)


def reward_flat(self, pool_pledge, pool_stake):
    beta = self.global_saturation_threshold
    return TOTAL_REWARDS / (1 + self.a0) * (min(pool_stake, beta) + self.a0 * min(pool_pledge, beta))


def reward_curve(self, pool_pledge, pool_stake):
    beta = self.global_saturation_threshold
    crossover = beta / self.crossover_factor
    pledge_factor = pool_pledge ** (1 / self.curve_root) * crossover ** ((self.curve_root - 1) / self.curve_root)
    stake, pledge = min(pool_stake, beta), min(pledge_factor, beta)
    return TOTAL_REWARDS / (1 + self.a0) * (
            stake + pledge * self.a0 * (stake - pledge * (beta - stake) / beta) / beta)


def reward_cip50(self, pool_pledge, pool_stake):
    return TOTAL_REWARDS * min(pool_stake, self.get_pool_saturation_threshold(pool_pledge))


def reward_base(self, pool_pledge, pool_stake):
    raise NotImplementedError('')


RSS_MAPPING = {
    0: CardanoRSS,
    1: SimplifiedRSS,
    2: FlatPledgeBenefitRSS,
    3: CurvePledgeBenefitRSS,
    4: CIP50RSS
}
