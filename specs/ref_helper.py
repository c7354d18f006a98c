"""Reference semantics of distributions, validation and files (logic/helper.py)."""
import argparse
import csv
import json

from numpy.random import default_rng
from scipy import stats


def read_stake_distr_from_file(num_agents=10000, seed=42):
    stakes = []
    try:
        with open('synthetic-stake-distribution-' + str(num_agents) + '-agents.csv') as file:
            for row in csv.reader(file):
                stakes.append(float(row[0]))
    except FileNotFoundError:
        try:
            with open('synthetic-stake-distribution-10000-agents.csv') as file:
                for row in csv.reader(file):
                    stakes.append(float(row[0]))
        except FileNotFoundError:
            print('')
            raise
    if num_agents == len(stakes):
        return stakes
    rng = default_rng(seed=int(seed))
    if num_agents < len(stakes):
        return rng.choice(stakes, num_agents, replace=False)
    return rng.choice(stakes, num_agents, replace=True)


def stake_distr_disparity(n, x=0.3, c=3):
    return [x / c for _ in range(c)] + [(1 - x) / (n - c) for _ in range(n - c)]


def stake_distr_flat(num_agents):
    return [1 / num_agents if num_agents > 0 else 0 for _ in range(num_agents)]


def stake_distr_pareto(num_agents, pareto_param=2, seed=156, truncation_factor=-1):
    rng = default_rng(seed=int(seed))
    sample = list((rng.pareto(pareto_param, num_agents) + 1) * 1.)
    if truncation_factor > 0:
        sample = truncate_pareto(rng, (pareto_param, 1.), sample, truncation_factor)
    return sample


def truncate_pareto(rng, pareto_params, sample, truncation_factor):
    a, m = pareto_params
    while True:
        largest = max(sample)
        if largest <= sum(sample) / truncation_factor:
            return sample
        sample.remove(largest)
        sample.append((rng.pareto(a) + 1) * m)


def cost_distr_uniform(num_agents, low, high, seed=156):
    if high < low:
        raise ValueError('')
    return default_rng(seed=int(seed)).uniform(low=low, high=high, size=num_agents)


def cost_distr_disparity(n, low, high, c=10):
    if high < low:
        raise ValueError('')
    return [high for _ in range(c)] + [low for _ in range(n - c)]


def cost_distr_bands(num_agents, low, high, num_bands, seed=156):
    if high < low:
        raise ValueError('')
    rng = default_rng(seed=seed)
    bands = rng.uniform(low=low, high=high, size=num_bands)
    return rng.choice(bands, num_agents)


def cost_distr_nrm(num_agents, low, high, mean, stddev):
    if high < low:
        raise ValueError('')
    return stats.truncnorm.rvs(low, high, loc=mean, scale=stddev, size=num_agents)


# ---------------------------------------------------------------------------------------------------------------------

def positive_int(value):
    n = int(value)
    if n <= 0:
        raise argparse.ArgumentTypeError('')
    return n


def non_negative_int(value):
    n = int(value)
    if n < 0:
        raise argparse.ArgumentTypeError('')
    return n


def positive_float(value):
    x = float(value)
    if x <= 0:
        raise argparse.ArgumentTypeError('')
    return x


def non_negative_float(value):
    x = float(value)
    if x < 0:
        raise argparse.ArgumentTypeError('')
    return x


def fraction(value):
    x = float(value)
    if x < 0 or x > 1:
        raise argparse.ArgumentTypeError('')
    return x


# ---------------------------------------------------------------------------------------------------------------------

def generate_execution_id(args_dict):
    parts = []
    for key, value in list(args_dict.items())[:5]:
        if isinstance(value, list):
            parts.append(str(key) + '-' + "-".join([str(v) for v in value]))
        else:
            parts.append(str(key) + '-' + str(value))
    return "-".join(parts)[:100]


def export_csv_file(rows, filepath):
    with open(filepath, 'w', newline='') as file:
        csv.writer(file).writerows(rows)


def export_json_file(data, filepath):
    with open(filepath, 'w', encoding='utf-8') as f:
        json.dump(data, f, ensure_ascii=False, indent=4, default=lambda x: str(x))


def read_args_from_file(filepath):
    try:
        with open(filepath) as f:
            return json.load(f)
    except FileNotFoundError:
        print('')
        raise
    except ValueError:
        print('')
        raise


def read_seq_id(filename='sequence.dat'):
    try:
        with open(filename, 'r') as f:
            return int(f.read())
    except FileNotFoundError:
        return 0


def write_seq_id(seq, filename='sequence.dat'):
    with open(filename, 'w') as f:
        f.write(str(seq))


def write_to_csv(filepath, header, row):
    with open(filepath, 'a', newline='') as f:
        writer = csv.writer(f)
        if f.tell() == 0:
            writer.writerow(header)
        writer.writerow(row)


def add_script_arguments(parser):
    parser.add_argument('--n', nargs="?", type=positive_int, default=1000)
    parser.add_argument('--k', nargs="+", type=positive_int, default=100)
    parser.add_argument('--a0', nargs="+", type=non_negative_float, default=0.3)
    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=[0, 1, 2, 3, 4])
    parser.add_argument('--agent_profile_distr', nargs=3, type=non_negative_float, default=[1, 0, 0])
    parser.add_argument('--cost_min', nargs="?", type=non_negative_float, default=1e-5)
    parser.add_argument('--cost_max', nargs="?", type=non_negative_float, default=1e-4)
    parser.add_argument('--extra_pool_cost_fraction', nargs="?", type=non_negative_float, default=0.4)
    parser.add_argument('--agent_activation_order', nargs="?", type=str.lower, default='random',
                        choices=['random', 'sequential', 'simultaneous', 'semisimultaneous'])
    parser.add_argument('--absolute_utility_threshold', nargs="?", type=non_negative_float, default=1e-9)
    parser.add_argument('--relative_utility_threshold', nargs="?", type=non_negative_float, default=0)
    parser.add_argument('--stake_distr_source', nargs="?", type=str.lower, default='pareto',
                        choices=["pareto", "flat", "disparity", "file"])
    parser.add_argument('--pareto_param', nargs="?", type=positive_float, default=2.0)
    parser.add_argument('--inactive_stake_fraction', nargs="?", type=fraction, default=0)
    parser.add_argument('--inactive_stake_fraction_known', type=bool, default=False,
                        action=argparse.BooleanOptionalAction)
    parser.add_argument('--iterations_after_convergence', nargs="?", type=positive_int, default=10)
    parser.add_argument('--max_iterations', nargs="?", type=positive_int, default=2000)
    parser.add_argument('--metrics', nargs="+", type=int, default=None, choices=[
        1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30])
    parser.add_argument('--generate_graphs', type=bool, default=True, action=argparse.BooleanOptionalAction)
    parser.add_argument('--seed', nargs="?", type=non_negative_int, default=None)
    parser.add_argument('--execution_id', nargs="?", type=str, default='')
    parser.add_argument('--input_from_file', type=bool, default=False, action=argparse.BooleanOptionalAction)
    parser.add_argument('--profile_code', type=bool, default=False, action=argparse.BooleanOptionalAction)
