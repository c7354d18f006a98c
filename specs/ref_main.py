"""Reference semantics of the command line of a single run (main.py)."""
import argparse
import random
import cProfile
from pstats import Stats

import logic.sim as simulation
import logic.helper as hlp
import logic.sim as sim
from custom_batchrunner import custom_batch_run


def main():
    print("")
    parser = argparse.ArgumentParser(description='Pooling Games')
    hlp.add_script_arguments(parser)
    args = parser.parse_args()
    sim = simulation.Simulation(
        n=args.n, k=args.k, a0=args.a0, stake_distr_source=args.stake_distr_source,
        agent_profile_distr=args.agent_profile_distr, inactive_stake_fraction=args.inactive_stake_fraction,
        inactive_stake_fraction_known=args.inactive_stake_fraction_known,
        relative_utility_threshold=args.relative_utility_threshold,
        absolute_utility_threshold=args.absolute_utility_threshold, seed=args.seed, pareto_param=args.pareto_param,
        max_iterations=args.max_iterations, cost_min=args.cost_min, cost_max=args.cost_max,
        extra_pool_cost_fraction=args.extra_pool_cost_fraction, agent_activation_order=args.agent_activation_order,
        iterations_after_convergence=args.iterations_after_convergence, reward_scheme=args.reward_scheme,
        execution_id=args.execution_id, metrics=args.metrics, generate_graphs=args.generate_graphs,
        input_from_file=args.input_from_file)
    profiling = args.profile_code
    if profiling:
        pr = cProfile.Profile()
        pr.enable()
    sim.run_model()
    if sim.has_converged():
        print('', sim.equilibrium_steps)
    else:
        print('')
    if profiling:
        pr.disable()
        stats = Stats(pr)
        print("")
        stats.sort_stats('tottime').print_stats(10)


def batch():
    """command line of a batch run, up to the start of the simulations"""
    parser = argparse.ArgumentParser(description='Pooling Games Batch Run')
    args_dict = vars(parser.parse_args())
    batch_run_id = args_dict["execution_id"]
    args_dict.pop("execution_id")
    seed = args_dict["seed"]
    args_dict.pop("seed")
    if seed is None:
        seed = random.randint(0, 9999999)
    args_dict.pop("agent_profile_distr")
    params = {}
    for arg_name, arg_value in args_dict.items():
        params[arg_name] = arg_value
    results, batch_run_directory = custom_batch_run(
        sim.Simulation, parameters=params, iterations=1, max_steps=params['max_iterations'], number_processes=None,
        data_collection_period=-1, display_progress=True, batch_run_id=batch_run_id, initial_seed=seed)


def batch_options(parser):
    parser.add_argument('--execution_id', nargs="?", type=str, default='batch-run')
    parser.add_argument('--seed', nargs="?", type=int, default=None)
    parser.add_argument('--max_iterations', nargs="?", type=int, default=2000)
    parser.add_argument('--n', nargs="*", type=int, default=1000)
    parser.add_argument('--k', nargs="*", type=int, default=[100, 200, 300])
    parser.add_argument('--a0', nargs="*", type=float, default=0.3)
    parser.add_argument('--inactive_stake_fraction', nargs="*", type=float, default=0)
    parser.add_argument('--inactive_stake_fraction_known', type=bool, default=False,
                        action=argparse.BooleanOptionalAction)
    parser.add_argument('--pareto_param', nargs="*", type=float, default=2.0)
    parser.add_argument('--cost_min', nargs="*", type=float, default=1e-5)
    parser.add_argument('--cost_max', nargs="*", type=float, default=1e-4)
    parser.add_argument('--extra_pool_cost_fraction', nargs="*", type=float, default=0.4)
    parser.add_argument('--stake_distr_source', nargs="?", type=str, default='Pareto')
    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(5))
    parser.add_argument('--relative_utility_threshold', nargs="+", type=float, default=0)
    parser.add_argument('--absolute_utility_threshold', nargs="+", type=float, default=0)
    parser.add_argument('--iterations_after_convergence', type=int, default=10)
    parser.add_argument('--agent_profile_distr', nargs="*", type=float, default=[1, 0, 0])
