"""Reference semantics of the stakeholders' decisions and moves (logic/stakeholder.py, logic/stakeholder_profiles.py)."""
import heapq
import math
from copy import deepcopy

from sortedcontainers import SortedList

import logic.helper as hlp
from logic.pool import Pool
from logic.strategy import Strategy
from logic.stakeholder import Stakeholder
from logic.stakeholder_profiles import NonMyopicStakeholder, MyopicStakeholder, Abstainer

MIN_STAKE_UNIT = 2.2e-17
BOOST = 1e-6


# ---------------------------------------------------------------------------------------------------------------------
# activation

def step(self):
    self.update_strategy()
    if "simultaneous" not in self.model.agent_activation_order.lower():
        self.advance()


def advance(self):
    if self.new_strategy is None:
        return
    self.execute_strategy()
    self.model.current_step_idle = False


# ---------------------------------------------------------------------------------------------------------------------
# choice of a move

def update_strategy(self):
    now = self.calculate_current_utility()
    expected = self.calculate_expected_utility(self.strategy)
    rel, absolute = self.model.relative_utility_threshold, self.model.absolute_utility_threshold
    bar = max((1 + rel) * now, now + absolute, (1 + rel) * expected, expected + absolute)

    delegation = self.find_delegation_move()
    delegation_utility = self.calculate_expected_utility(delegation)
    operator_utility, operation = self.choose_pool_strategy()

    best, choice = bar, None
    if delegation_utility > best:
        best, choice = delegation_utility, delegation
    if operation is not None and operator_utility > best:
        choice = operation
    self.new_strategy = choice


def abstain(self):
    return


def stakeholder_init(self, unique_id, model, stake, cost, strategy=None):
    self.unique_id = unique_id
    self.model = model
    self.cost = cost
    self.stake = stake
    self.new_strategy = None
    self.strategy = strategy if strategy is not None else Strategy()


def abstainer_init(self, unique_id, model, stake, cost, strategy=None):
    self.unique_id = unique_id
    self.model = model
    self.cost = cost
    self.stake = stake
    self.new_strategy = None
    self.strategy = None


def nonmyopic_init(self, unique_id, model, stake, cost, strategy=None):
    self.unique_id = unique_id
    self.model = model
    self.cost = cost
    self.stake = stake
    self.new_strategy = None
    self.strategy = strategy if strategy is not None else Strategy()
    self.rankings = self.model.pool_rankings


def myopic_init(self, unique_id, model, stake, cost, strategy=None):
    self.unique_id = unique_id
    self.model = model
    self.cost = cost
    self.stake = stake
    self.new_strategy = None
    self.strategy = strategy if strategy is not None else Strategy()
    self.rankings = self.model.pool_rankings_myopic


def current_utility(self):
    scheme = self.model.reward_scheme
    total = 0
    for pool in self.strategy.owned_pools.values():
        total += hlp.calculate_operator_utility_from_pool(pool.stake, pool.pledge, pool.margin, pool.cost, scheme)
    for pool_id, amount in self.strategy.stake_allocations.items():
        pool = self.model.pools[pool_id]
        total += hlp.calculate_delegator_utility_from_pool(amount, pool.stake, pool.pledge, pool.margin, pool.cost,
                                                           scheme)
    return total


def expected_utility(self, strategy):
    total = 0
    if len(strategy.owned_pools) > 0:
        total += self.calculate_operator_utility_from_strategy(strategy)
    for pool_id, amount in strategy.stake_allocations.items():
        if pool_id in self.model.pools:
            total += self.calculate_delegator_utility_from_pool(self.model.pools[pool_id], amount)
    return total


def choose_pool_strategy(self):
    low, high = 1, self.model.reward_scheme.k
    while True:
        t = math.floor((low + high) / 2)
        margins, utility = self.calculate_margins_and_utility(t)
        if t > low:
            _, utility_minus = self.calculate_margins_and_utility(t - 1)
            if utility_minus > utility:
                high = t - 1
                continue
        if t < high:
            _, utility_plus = self.calculate_margins_and_utility(t + 1)
            if utility_plus > utility:
                low = t + 1
                continue
        break
    if t <= 0:
        return 0, None
    strategy = self.find_operator_move(t, self.determine_pools_to_keep(t), margins)
    return self.calculate_expected_utility(strategy), strategy


def calculate_margin(self, pool):
    if pool.is_private:
        return 0
    reference = self.rankings[self.model.reward_scheme.k - 1]
    target = 0 if reference is None else reference.potential_profit
    return hlp.calculate_suitable_margin(pool.potential_profit, target)


def pools_to_keep(self, num_pools_to_keep):
    owned = self.strategy.owned_pools
    if num_pools_to_keep >= len(owned):
        return deepcopy(owned)
    keep = {}
    properties = [(pool.desirability, pool.potential_profit, pool.stake, -pool_id) for pool_id, pool in owned.items()]
    for pool_id in {-p[3] for p in heapq.nlargest(num_pools_to_keep, properties)}:
        keep[pool_id] = deepcopy(owned[pool_id])
    return keep


def cost_per_pool(self, num_pools):
    return hlp.calculate_cost_per_pool(num_pools, self.cost, self.model.extra_pool_cost_fraction)


def pledge_per_pool(self, num_pools):
    return hlp.calculate_pledge_per_pool(self.stake, self.model.reward_scheme.global_saturation_threshold, num_pools)


def find_operator_move(self, num_pools, owned_pools, margins=[]):
    scheme = self.model.reward_scheme
    pledge = self.determine_pledge_per_pool(num_pools)
    cost = self.calculate_cost_per_pool(num_pools)
    for i, (pool_id, pool) in enumerate(owned_pools.items()):
        pool.stake = pool.stake - pool.pledge + pledge
        pool.pledge = pledge
        pool.is_private = pledge >= scheme.get_pool_saturation_threshold(pledge)
        pool.cost = cost
        pool.set_profit(scheme)
        pool.margin = margins[i] if i < len(margins) else self.calculate_margin(pool)
    for i in range(len(owned_pools), num_pools):
        pool_id = self.model.get_next_pool_id()
        pool = Pool(pool_id, cost, pledge, self.unique_id, scheme,
                    is_private=pledge >= scheme.get_pool_saturation_threshold(pledge))
        pool.margin = margins[i] if i < len(margins) else self.calculate_margin(pool)
        owned_pools[pool_id] = pool
    allocations = self.find_delegation_for_operator(pledge * num_pools)
    return Strategy(allocations, owned_pools)


def delegation_for_operator(self, total_pledge):
    rest = self.stake - total_pledge
    if rest > 0:
        return self.find_delegation_move(rest).stake_allocations
    return {}


def determine_stake_allocations(self, stake_to_delegate):
    eligible = [p for p in self.rankings if p is not None and p.owner != self.unique_id and not p.is_private]
    if len(eligible) == 0:
        return None

    # the agent's own delegations do not count
    for pool_id, amount in self.strategy.stake_allocations.items():
        pool = self.model.pools[pool_id]
        self.model.pool_rankings_myopic.remove(pool)
        pool.update_delegation(0, self.unique_id)
        self.model.pool_rankings_myopic.add(pool)

    allocations = {}
    best_saturated = None
    for pool in eligible:
        room = self.model.reward_scheme.get_pool_saturation_threshold(pool.pledge) - pool.stake
        if room < MIN_STAKE_UNIT:
            if best_saturated is None:
                best_saturated = pool
            continue
        amount = min(stake_to_delegate, room)
        stake_to_delegate -= amount
        allocations[pool.id] = amount
        if stake_to_delegate < MIN_STAKE_UNIT:
            break
    if stake_to_delegate >= MIN_STAKE_UNIT and best_saturated is not None:
        allocations[best_saturated.id] = stake_to_delegate

    # and afterwards everything is as it was before
    for pool_id, amount in self.strategy.stake_allocations.items():
        pool = self.model.pools[pool_id]
        self.model.pool_rankings_myopic.remove(pool)
        pool.update_delegation(amount, self.unique_id)
        self.model.pool_rankings_myopic.add(pool)
    return allocations


def find_delegation_move(self, stake_to_delegate=None):
    amount = self.stake if stake_to_delegate is None else stake_to_delegate
    if amount < MIN_STAKE_UNIT:
        return Strategy()
    return Strategy(self.determine_stake_allocations(amount))


def strategy_init(self, stake_allocations=None, owned_pools=None):
    self.stake_allocations = {} if stake_allocations is None else stake_allocations
    self.owned_pools = {} if owned_pools is None else owned_pools


# ---------------------------------------------------------------------------------------------------------------------
# execution of a move

def execute_strategy(self):
    pools = self.model.pools
    old, new = self.strategy, self.new_strategy
    for pool_id in old.stake_allocations.keys() - new.stake_allocations.keys():
        pool = pools[pool_id]
        if pool is not None:
            self.model.pool_rankings_myopic.remove(pool)
            pool.update_delegation(0, self.unique_id)
            self.model.pool_rankings_myopic.add(pool)
    for pool_id in new.stake_allocations.keys():
        pool = pools[pool_id]
        if pool is not None:
            self.model.pool_rankings_myopic.remove(pool)
            pool.update_delegation(new.stake_allocations[pool_id], self.unique_id)
            self.model.pool_rankings_myopic.add(pool)

    before, after = set(old.owned_pools.keys()), set(new.owned_pools.keys())
    for pool_id in before - after:
        self.close_pool(pool_id)
    for pool_id in after & before:
        pools[pool_id] = self.update_pool(pool_id)
    self.strategy = self.new_strategy
    self.new_strategy = None
    for pool_id in after - before:
        self.open_pool(pool_id)


def update_pool(self, pool_id):
    updated = self.new_strategy.owned_pools[pool_id]
    live = self.model.pools[pool_id]
    updated.stake = live.stake - live.pledge + updated.pledge
    updated.delegators = live.delegators.copy()
    if updated.is_private:
        self.remove_delegations(updated)
    self.model.pools[pool_id] = updated
    old = self.strategy.owned_pools[pool_id]
    self.model.pool_rankings.remove(old)
    self.model.pool_rankings.add(updated)
    self.model.pool_rankings_myopic.remove(old)
    self.model.pool_rankings_myopic.add(updated)
    return updated


def open_pool(self, pool_id):
    pool = self.strategy.owned_pools[pool_id]
    self.model.pools[pool_id] = pool
    self.model.pool_rankings.add(pool)
    self.model.pool_rankings_myopic.add(pool)


def close_pool(self, pool_id):
    pool = self.model.pools[pool_id]
    self.model.pool_rankings.remove(pool)
    self.model.pool_rankings_myopic.remove(pool)
    self.remove_delegations(pool)
    self.model.pools.pop(pool_id)


def remove_delegations(self, pool):
    agents = self.model.get_agents_dict()
    for agent_id in list(pool.delegators.keys()):
        agents[agent_id].strategy.stake_allocations.pop(pool.id)
        pool.update_delegation(0, agent_id)
    if "simultaneous" in self.model.agent_activation_order.lower():
        for agent in agents.values():
            if agent.new_strategy is not None:
                agent.new_strategy.stake_allocations.pop(pool.id, None)


# ---------------------------------------------------------------------------------------------------------------------
# non-myopic stakeholders

def nm_operator_utility(self, strategy):
    pools = strategy.owned_pools.values()
    ranking = SortedList([p for p in self.rankings if p is not None and p.owner != self.unique_id],
                         key=hlp.pool_comparison_key)
    ranking.update(pools)
    total = 0
    for pool in pools:
        total += self.calculate_operator_utility_from_pool(pool, ranking)
    return total


def nm_operator_utility_from_pool(self, pool, all_pool_rankings):
    scheme = self.model.reward_scheme
    stake = hlp.calculate_non_myopic_pool_stake(pool, all_pool_rankings, scheme, self.model.total_stake)
    return hlp.calculate_operator_utility_from_pool(stake, pool.pledge, pool.margin, pool.cost, scheme)


def nm_delegator_utility(self, pool, stake_allocation):
    scheme = self.model.reward_scheme
    own = self.strategy.stake_allocations.get(pool.id, 0)
    stake = max(hlp.calculate_non_myopic_pool_stake(pool, self.rankings, scheme, self.model.total_stake),
                pool.stake - own + stake_allocation)
    return hlp.calculate_delegator_utility_from_pool(stake_allocation, stake, pool.pledge, pool.margin, pool.cost,
                                                     scheme)


def nm_margins_and_utility(self, num_pools):
    scheme = self.model.reward_scheme
    cost = self.calculate_cost_per_pool(num_pools)
    pledge = self.determine_pledge_per_pool(num_pools)
    saturation = scheme.get_pool_saturation_threshold(pledge)
    potential_profit = hlp.calculate_potential_profit(scheme, pledge, cost)
    others = [p for p in self.rankings if p is None or p.owner != self.unique_id]
    margins, utility = [], 0
    for t in range(1, num_pools + 1):
        rival = others[scheme.k - t]
        if rival is None:
            desirability, rival_profit = BOOST, 0
        else:
            desirability, rival_profit = rival.desirability + BOOST, rival.potential_profit
        if potential_profit < desirability:
            margins.append(0)
            utility += hlp.calculate_operator_utility_from_pool(pledge, pledge, 0, cost, scheme)
        else:
            margin = hlp.calculate_suitable_margin(potential_profit, max(desirability, rival_profit))
            margins.append(margin)
            utility += hlp.calculate_operator_utility_from_pool(saturation, pledge, margin, cost, scheme)
    return margins, utility


# ---------------------------------------------------------------------------------------------------------------------
# myopic stakeholders

def my_operator_utility(self, strategy):
    scheme = self.model.reward_scheme
    total = 0
    for pool in strategy.owned_pools.values():
        total += hlp.calculate_operator_utility_from_pool(pool.stake, pool.pledge, pool.margin, pool.cost, scheme)
    return total


def my_delegator_utility(self, pool, stake_allocation):
    own = self.strategy.stake_allocations.get(pool.id, 0)
    return hlp.calculate_delegator_utility_from_pool(stake_allocation, pool.stake - own + stake_allocation, pool.pledge,
                                                     pool.margin, pool.cost, self.model.reward_scheme)


def my_margins_and_utility(self, num_pools):
    scheme = self.model.reward_scheme
    cost = self.calculate_cost_per_pool(num_pools)
    pledge = self.determine_pledge_per_pool(num_pools)
    saturation = scheme.get_pool_saturation_threshold(pledge)
    attracted = max(sum([p.stake for p in self.strategy.owned_pools.values()]), self.stake)
    profit = hlp.calculate_current_profit(attracted / num_pools, pledge, cost, scheme)
    others = [p for p in self.rankings if p is None or p.owner != self.unique_id]
    margins, utility = [], 0
    for t in range(1, num_pools + 1):
        rival = others[scheme.k - t]
        target = 0
        if rival is not None:
            rival_profit = hlp.calculate_current_profit(rival.stake, rival.pledge, rival.cost, scheme)
            target = hlp.calculate_myopic_pool_desirability(rival.margin, rival_profit)
        margin = hlp.calculate_suitable_margin(profit, target + BOOST)
        margins.append(margin)
        utility += hlp.calculate_operator_utility_from_pool(saturation, pledge, margin, cost, scheme)
    return margins, utility


PROFILE_MAPPING = {
    0: NonMyopicStakeholder,
    1: MyopicStakeholder,
    2: Abstainer
}
