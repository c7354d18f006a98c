"""Reference semantics of the metrics (docs/metrics.md)."""
import collections
import statistics
from math import fsum

import numpy as np

import logic.helper as hlp
from logic.model_reporters import *


def number_of_pools(model):
    return len(model.pools)


def mean_or_zero(values):
    return statistics.mean(values) if len(values) > 0 else 0


def median_or_zero(values):
    return statistics.median(values) if len(values) > 0 else 0


def avg_margin(model):
    return mean_or_zero([pool.margin for pool in model.get_pools_list()])


def median_margin(model):
    return median_or_zero([pool.margin for pool in model.get_pools_list()])


def avg_pledge(model):
    return mean_or_zero([pool.pledge for pool in model.get_pools_list()])


def median_pledge(model):
    return median_or_zero([pool.pledge for pool in model.get_pools_list()])


def total_pledge(model):
    return sum([pool.pledge for pool in model.get_pools_list()])


def operator_count(model):
    return len({pool.owner for pool in model.get_pools_list()})


def avg_pools_per_operator(model):
    pools = model.get_pools_list()
    if len(pools) == 0:
        return 0
    return len(pools) / len({pool.owner for pool in pools})


def max_pools_per_operator(model):
    pools = model.get_pools_list()
    if len(pools) == 0:
        return 0
    return max(collections.Counter([pool.owner for pool in pools]).values())


def median_pools_per_operator(model):
    pools = model.get_pools_list()
    if len(pools) == 0:
        return 0
    return statistics.median(collections.Counter([pool.owner for pool in pools]).values())


def pool_splitter_count(model):
    pools = model.get_pools_list()
    if len(pools) == 0:
        return 0
    counts = collections.Counter([pool.owner for pool in pools])
    return len([owner for owner, count in counts.items() if count > 1])


def avg_sat_rate(model):
    return mean_or_zero([pool.stake / model.reward_scheme.get_pool_saturation_threshold(pool.pledge)
                         for pool in model.get_pools_list()])


def stakes_n_margins(model):
    agents = model.get_agents_dict()
    pools = model.get_pools_list()
    return {
        'x': [agents[pool.owner].stake for pool in pools],
        'y': [pool.stake for pool in pools],
        'r': [pool.margin for pool in pools],
        'pool_id': [pool.id for pool in pools],
        'owner_id': [pool.owner for pool in pools]
    }


def stat_dist(model):
    agents = model.get_agents_dict()
    pools = model.get_pools_list()
    if len(pools) == 0:
        return 0
    controlled = {agent_id: 0 for agent_id in agents}
    for pool in pools:
        controlled[pool.owner] += pool.stake
    return sum([abs(controlled[agent_id] - agents[agent_id].stake) for agent_id in agents]) / 2


def nakamoto_coefficient(model):
    agents = model.get_agents_dict()
    try:
        pools = model.get_pools_list()
    except AttributeError:
        stakes = sorted([agent.stake for agent in agents.values()], reverse=True)
        total = fsum(stakes)
        count, majority, index = 0, 0, 0
        while majority <= total / 2:
            majority += stakes[index]
            count += 1
            index += 1
        return count
    if len(pools) == 0:
        return 0
    controlled = {agent_id: 0 for agent_id in agents}
    for pool in pools:
        controlled[pool.owner] += pool.stake
    stakes = sorted([controlled[agent_id] for agent_id in agents.keys()], reverse=True)
    cumulative = np.array([fsum(stakes[:i + 1]) for i in range(len(stakes))])
    return np.argmax(cumulative > fsum(stakes) / 2) + 1


def pledge_rate(model):
    pools = model.get_pools_list()
    if len(pools) == 0:
        return 0
    return fsum([pool.pledge for pool in pools]) / fsum([pool.stake for pool in pools])


def homogeneity_factor(model):
    pools = model.get_pools_list()
    if len(pools) == 0:
        return 0
    stakes = [pool.stake for pool in pools]
    return fsum(stakes) / (len(pools) * max(stakes))


def iterations(model):
    return model.schedule.steps


def owner_ranks(model, ranks):
    return [ranks[pool.owner] for pool in model.get_pools_list()]


def stake_ranks(model):
    return hlp.calculate_ranks({agent_id: agent.stake for agent_id, agent in model.get_agents_dict().items()})


def cost_ranks(model):
    return hlp.calculate_ranks({agent_id: -agent.cost for agent_id, agent in model.get_agents_dict().items()})


def avg_stk_rnk(model):
    r = owner_ranks(model, stake_ranks(model))
    return round(statistics.mean(r)) if len(r) > 0 else 0


def avg_cost_rnk(model):
    r = owner_ranks(model, cost_ranks(model))
    return round(statistics.mean(r)) if len(r) > 0 else 0


def median_stk_rnk(model):
    r = owner_ranks(model, stake_ranks(model))
    return round(statistics.median(r)) if len(r) > 0 else 0


def median_cost_rnk(model):
    r = owner_ranks(model, cost_ranks(model))
    return round(statistics.median(r)) if len(r) > 0 else 0


def calculate_ranks(ranking_dict, *tie_breaking_dicts, rank_ids=True):
    ties = list(tie_breaking_dicts)
    if rank_ids:
        ties.append({key: -key for key in ranking_dict.keys()})
    keys = {key: (ranking_dict[key],) + tuple(tie[key] for tie in ties) for key in ranking_dict}
    ranks = {}
    for i, item in enumerate(sorted(keys.items(), key=lambda item: item[1], reverse=True)):
        ranks[item[0]] = i + 1
    return ranks


def cost_efficient_count(model):
    return len([agent for agent in model.get_agents_list()
                if hlp.calculate_potential_profit(model.reward_scheme, agent.stake, agent.cost) > 0])


def pool_stakes_by_agent(model):
    stakes = [0 for _ in range(model.n)]
    for pool in model.get_pools_list():
        stakes[pool.owner] += pool.stake
    return stakes


def pool_stakes_by_agent_id(model):
    stakes = {i: 0 for i in range(model.n)}
    for pool in model.get_pools_list():
        stakes[pool.owner] += pool.stake
    return stakes


def gini(np_array):
    diffsum = 0
    for i, xi in enumerate(np_array[:-1], 1):
        diffsum += np.sum(np.abs(xi - np_array[i:]))
    return diffsum / (len(np_array) * sum(np_array)) if sum(np_array) != 0 else -1


def counts_per_owner(model):
    counts = collections.defaultdict(lambda: 0)
    for pool in model.get_pools_list():
        counts[pool.owner] += 1
    return np.fromiter(counts.values(), dtype=int)


def stakes_per_owner(model):
    stakes = collections.defaultdict(lambda: 0)
    for pool in model.get_pools_list():
        stakes[pool.owner] += pool.stake
    return np.fromiter(stakes.values(), dtype=float)


def pad(values, k):
    if values.size < k:
        values = np.append(values, np.zeros(k - values.size, dtype=int))
    return values


def gini_count(model):
    return gini_coefficient(counts_per_owner(model))


def gini_count_k(model):
    return gini_coefficient(pad(counts_per_owner(model), model.reward_scheme.k))


def gini_stake(model):
    return gini_coefficient(stakes_per_owner(model))


def gini_stake_k(model):
    return gini_coefficient(pad(stakes_per_owner(model), model.reward_scheme.k))


def total_delegated_stake(model):
    return fsum([pool.stake for pool in model.get_pools_list()])


def active_stake_agents(model):
    return fsum([agent.stake for agent in model.schedule.agents])


def stake_distr_stats(model):
    s = np.array([agent.stake for agent in model.schedule.agents])
    return s.max(), s.min(), s.mean(), np.median(s), s.std()


ALL_MODEL_REPORTEERS = {
    "Pool count": get_number_of_pools,
    "Total pledge": get_total_pledge,
    "Mean pledge": get_avg_pledge,
    "Median pledge": get_median_pledge,
    "Average pools per operator": get_avg_pools_per_operator,
    "Max pools per operator": get_max_pools_per_operator,
    "Median pools per operator": get_median_pools_per_operator,
    "Average saturation rate": get_avg_sat_rate,
    "Nakamoto coefficient": get_nakamoto_coefficient,
    "Statistical distance": get_controlled_stake_distr_stat_dist,
    "Min-aggregate pledge": get_min_aggregate_pledge,
    "Pledge rate": get_pledge_rate,
    "Pool homogeneity factor": get_homogeneity_factor,
    "Iterations": get_iterations,
    "Mean stake rank": get_avg_stk_rnk,
    "Mean cost rank": get_avg_cost_rnk,
    "Median stake rank": get_median_stk_rnk,
    "Median cost rank": get_median_cost_rnk,
    "Number of pool splitters": get_pool_splitter_count,
    "Cost efficient stakeholders": get_cost_efficient_count,
    "Gini-id": get_gini_id_coeff_pool_count,
    "Gini-id stake": get_gini_id_coeff_stake,
    "Gini-id (k)": get_gini_id_coeff_pool_count_k_agents,
    "Gini-id stake (k)": get_gini_id_coeff_stake_k_agents,
    "Mean margin": get_avg_margin,
    "Median margin": get_median_margin,
    "Stake per agent": get_pool_stakes_by_agent,
    "Stake per agent id": get_pool_stakes_by_agent_id,
    "StakePairs": get_stakes_n_margins,
    "Total delegated stake": get_total_delegated_stake,
    "Total agent stake": get_active_stake_agents,
    "Operator count": get_operator_count
}

REPORTER_IDS = {
    1: "Pool count",
    2: "Total pledge",
    3: "Mean pledge",
    4: "Median pledge",
    5: "Average pools per operator",
    6: "Max pools per operator",
    7: "Median pools per operator",
    8: "Average saturation rate",
    9: "Nakamoto coefficient",
    10: "Statistical distance",
    11: "Min-aggregate pledge",
    12: "Pledge rate",
    13: "Pool homogeneity factor",
    14: "Iterations",
    15: "Mean stake rank",
    16: "Mean cost rank",
    17: "Median stake rank",
    18: "Median cost rank",
    19: "Number of pool splitters",
    20: "Cost efficient stakeholders",
    21: "StakePairs",
    22: "Gini-id",
    23: "Gini-id stake",
    24: "Mean margin",
    25: "Median margin",
    26: "Stake per agent",
    27: "Stake per agent id",
    28: "Total delegated stake",
    29: "Total agent stake",
    30: "Operator count"
}
