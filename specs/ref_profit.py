"""Reference semantics of costs, profits, rewards and desirabilities (logic/helper.py, logic/pool.py)."""
import logic.helper as hlp


def pool_reward(reward_scheme, pool_stake, pool_pledge):
    return reward_scheme.calculate_pool_reward(pool_pledge, pool_stake)


def potential_profit(reward_scheme, pledge, cost):
    saturated = reward_scheme.get_pool_saturation_threshold(pledge)
    return hlp.calculate_pool_reward(reward_scheme, saturated, pledge) - cost


def current_profit(stake, pledge, cost, reward_scheme):
    return hlp.calculate_pool_reward(reward_scheme, stake, pledge) - cost


def delegator_reward(pool_margin, pool_cost, pool_reward, delegator_stake_fraction):
    share = (1 - pool_margin) * delegator_stake_fraction * (pool_reward - pool_cost)
    return share if share > 0 else 0


def operator_reward(pool_margin, pool_cost, pool_reward, operator_stake_fraction):
    profit = pool_reward - pool_cost
    if profit <= 0:
        return profit
    return profit * (pool_margin + (1 - pool_margin) * operator_stake_fraction)


def operator_utility(pool_stake, pledge, margin, cost, reward_scheme):
    reward = hlp.calculate_pool_reward(reward_scheme, pool_stake, pledge)
    return hlp.calculate_operator_reward_from_pool(margin, cost, reward, pledge / pool_stake)


def delegator_utility(stake_allocation, pool_stake, pledge, margin, cost, reward_scheme):
    reward = hlp.calculate_pool_reward(reward_scheme, pool_stake, pledge)
    return hlp.calculate_delegator_reward_from_pool(margin, cost, reward, stake_allocation / pool_stake)


def suitable_margin(potential_profit, target_desirability):
    if potential_profit <= 0:
        return 0
    return max(1 - target_desirability / potential_profit, 0)


def desirability(margin, potential_profit):
    return max((1 - margin) * potential_profit, 0)


def myopic_desirability(margin, current_profit):
    return max((1 - margin) * current_profit, 0)


def cost_per_pool(num_pools, initial_cost, extra_pool_cost_fraction):
    return (initial_cost + (num_pools - 1) * (extra_pool_cost_fraction * initial_cost)) / num_pools


def pledge_per_pool(agent_stake, global_saturation_threshold, num_pools):
    if num_pools <= 0:
        raise ValueError('')
    return min(agent_stake / num_pools, global_saturation_threshold)


def stake_from_rank(pool_pledge, pool_stake, pool_saturation_threshold, rank_in_top_pools):
    if not rank_in_top_pools:
        return pool_pledge
    return max(pool_saturation_threshold, pool_stake)


def non_myopic_stake(pool, pool_rankings, reward_scheme, total_stake):
    better = 0
    for p in pool_rankings[:pool_rankings.index(pool)]:
        if p is not None:
            better += reward_scheme.get_pool_saturation_threshold(p.pledge)
    return hlp.calculate_non_myopic_pool_stake_from_rank(
        pool.pledge, pool.stake, reward_scheme.get_pool_saturation_threshold(pool.pledge),
        better + 2.2e-17 < total_stake)


def pool_splitting_profit(a0, phi, cost, stake):
    return (1 + a0) * (1 - phi) * cost - 1 * stake * a0


def comparison_key(pool):
    if pool is None:
        return 0, 0, 0
    return -pool.desirability, -pool.potential_profit, pool.id


def comparison_key_myopic(self, pool):
    if pool is None:
        return 0, 0, 0
    profit = hlp.calculate_current_profit(pool.stake, pool.pledge, pool.cost, self.reward_scheme)
    return -hlp.calculate_myopic_pool_desirability(pool.margin, profit), pool.id


def find_target_pool(pools_ranked, target_stake, reward_scheme):
    covered_stake = 0
    top_pools = []
    for pool in pools_ranked:
        if covered_stake >= target_stake:
            break
        top_pools.append(pool)
        if pool is None:
            break
        covered_stake = sum(reward_scheme.get_pool_saturation_threshold(p.pledge) for p in top_pools)
    return top_pools[-1] if len(top_pools) > 0 else None


# ---------------------------------------------------------------------------------------------------------------------
# pools


def pool_init(self, pool_id, cost, pledge, owner, reward_scheme, margin=-1, is_private=False):
    self.id = pool_id
    self.owner = owner
    self.cost = cost
    self.pledge = pledge
    self.stake = pledge
    self.is_private = is_private
    self.delegators = {}
    self.set_profit(reward_scheme)
    self.margin = margin


def pool_margin(self):
    return self._margin


def pool_set_margin(self, m):
    self._margin = m
    self.set_desirability()


def pool_set_profit(self, reward_scheme):
    self.potential_profit = hlp.calculate_potential_profit(reward_scheme, self.pledge, self.cost)


def pool_set_desirability(self):
    self.desirability = hlp.calculate_pool_desirability(self.margin, self.potential_profit)


def pool_update_delegation(self, new_delegation, delegator_id):
    if delegator_id in self.delegators:
        self.stake -= self.delegators[delegator_id]
    self.stake += new_delegation
    self.delegators[delegator_id] = new_delegation
    if new_delegation < 2.2e-17:
        self.delegators.pop(delegator_id)
