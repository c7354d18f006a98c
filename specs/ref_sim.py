"""Reference semantics of the simulation (logic/sim.py, logic/activations.py)."""
import pathlib
import random
import time

from mesa import Model
from mesa.datacollection import DataCollector
from mesa.time import BaseScheduler, SimultaneousActivation, RandomActivation
from sortedcontainers import SortedList

from logic.activations import SemiSimultaneousActivation
import logic.reward_schemes as rss
import logic.helper as hlp
import logic.model_reporters as reporters
import logic.stakeholder_profiles as profiles


def step(self):
    self.get_status()
    self.datacollector.collect(self)
    current_step = self.schedule.steps
    if current_step >= self.max_iterations:
        self.wrap_up_execution()
        return
    self.schedule.step()
    if not self.current_step_idle:
        self.consecutive_idle_steps = 0
    else:
        self.consecutive_idle_steps += 1
        if self.has_converged():
            self.equilibrium_steps.append(current_step - self.iterations_after_convergence)
            if self.current_phase >= self.total_phases - 1:
                self.wrap_up_execution()
                return
            self.change_phase()
    self.current_step_idle = True


def run_model(self):
    self.start_time = time.time()
    self.initialize_pool_id_seq()
    while self.schedule.steps <= self.max_iterations and self.running:
        self.step()


def has_converged(self):
    return self.consecutive_idle_steps >= self.iterations_after_convergence


def change_phase(self):
    self.current_phase += 1
    self.consecutive_idle_steps = 0
    change_occured = False
    for pool in self.pools.values():
        self.pool_rankings.remove(pool)
        self.pool_rankings_myopic.remove(pool)
    for key, values in self.multi_phase_params.items():
        if len(values) > self.current_phase:
            instance = self
            if key in vars(self.reward_scheme) or '_' + key in vars(self.reward_scheme):
                instance = self.reward_scheme
            setattr(instance, key, values[self.current_phase])
            change_occured = True
    while self.pool_rankings.count(None) < self.reward_scheme.k + 1:
        self.pool_rankings.add(None)
        self.pool_rankings_myopic.add(None)
    for pool in self.pools.values():
        pool.set_profit(self.reward_scheme)
        pool.set_desirability()
        self.pool_rankings.add(pool)
        self.pool_rankings_myopic.add(pool)
    if change_occured:
        self.pivot_steps.append(self.schedule.steps)


def wrap_up_execution(self):
    self.running = False
    print('')
    self.export_pools_file()
    self.export_agents_file()
    self.export_metrics_file()
    self.export_final_state_desc_file()
    self.append_to_experiment_tracker()
    self.save_model_state_pkl()
    if self.generate_graphs:
        self.export_graphs()


def initialize_agents(self, agent_profile_distr, cost_min, cost_max, pareto_param, stake_distr_source, seed):
    if stake_distr_source == 'file':
        stakes = hlp.read_stake_distr_from_file(self.n)
    elif stake_distr_source == 'pareto':
        stakes = hlp.generate_stake_distr_pareto(self.n, pareto_param, seed)
    elif stake_distr_source == 'flat':
        stakes = hlp.generate_stake_distr_flat(self.n)
    elif stake_distr_source == 'disparity':
        stakes = hlp.generate_stake_distr_disparity(self.n)
    total_stake = sum(stakes)
    costs = hlp.generate_cost_distr_unfrm(self.n, cost_min, cost_max, seed)
    agent_profiles = self.random.choices(list(profiles.PROFILE_MAPPING.keys()), k=self.n, weights=agent_profile_distr)
    for i in range(self.n):
        agent = profiles.PROFILE_MAPPING[agent_profiles[i]](i, self, stakes[i], costs[i])
        self.schedule.add(agent)
    return total_stake


def normalize_agent_stake(self, total_stake, inactive_stake_fraction=0):
    active_stake = 1 - inactive_stake_fraction
    norm_total_stake = 0
    for agent in self.schedule.agents:
        agent.stake /= total_stake
        norm_total_stake += agent.stake
    if norm_total_stake != active_stake:
        flt_error = active_stake - norm_total_stake
        agent.stake += flt_error
        norm_total_stake += flt_error
    return norm_total_stake + inactive_stake_fraction


def initialize_pool_id_seq(self):
    self.id_seq = 0


def get_next_pool_id(self):
    self.id_seq += 1
    return self.id_seq


def get_pools_list(self):
    return list(self.pools.values())


def get_agents_dict(self):
    return {agent.unique_id: agent for agent in self.schedule.agents}


def get_agents_list(self):
    return self.schedule.agents


# ---------------------------------------------------------------------------------------------------------------------
# files


def export_args_file(self, args):
    hlp.export_json_file(args, self.directory / 'args.json')


def export_initial_state_desc_file(self, seed):
    stats = reporters.get_stake_distr_stats(self)
    hlp.export_json_file({
        'Randomness seed': seed,
        'Active stake': reporters.get_active_stake_agents(self),
        'Max stake': stats[0],
        'Min stake': stats[1],
        'Mean stake': stats[2],
        'Median stake': stats[3],
        'Standard deviation of stake': stats[4],
        'Nakamoto coefficient prior': reporters.get_nakamoto_coefficient(self),
        'Cost efficient agents': reporters.get_cost_efficient_count(self)
    }, self.directory / "initial-state-descriptors.json")


def export_agents_file(self):
    rows = [["Agent id", "Initial stake", "Cost", "Potential Profit", "Status", "Pools owned", "Total pool stake",
             "Pool splitting profit", "Profitable pool splitter"]]
    agents = self.get_agents_dict()
    for agent_id in range(len(agents)):
        agent = agents[agent_id]
        splitting = hlp.calculate_pool_splitting_profit(self.reward_scheme.a0, self.extra_pool_cost_fraction,
                                                        agent.cost, agent.stake)
        if agent.strategy is None:
            status, count, stake = "Abstainer", 0, 0
        else:
            status = "Operator" if len(agent.strategy.owned_pools) > 0 else "Delegator"
            count = len(agent.strategy.owned_pools)
            stake = sum([pool.stake for pool in agent.strategy.owned_pools.values()])
        rows.append([agent_id, round(agent.stake, 15), round(agent.cost, 15),
                     round(hlp.calculate_potential_profit(self.reward_scheme, agent.stake, agent.cost), 15),
                     status, count, stake, splitting, "YES" if splitting > 0 else "NO"])
    hlp.export_csv_file(rows, self.directory / ('final-state-stakeholders-' + self.execution_id + '.csv'))


def export_pools_file(self):
    rows = [["Pool id", "Owner id", "Owner stake", "Pool Pledge", "Pool stake", "Owner cost", "Pool cost",
             "Pool margin", "Pool PP", "Pool desirability"]]
    agents = self.get_agents_dict()
    for pool in self.get_pools_list():
        owner = agents[pool.owner]
        rows.append([pool.id, pool.owner, round(owner.stake, 15), round(pool.pledge, 15), round(pool.stake, 15),
                     round(owner.cost, 15), round(pool.cost, 15), round(pool.margin, 15), pool.potential_profit,
                     pool.desirability])
    hlp.export_csv_file(rows, self.directory / ('final-state-pools-' + self.execution_id + '.csv'))


def export_metrics_file(self):
    df = self.datacollector.get_model_vars_dataframe()
    df.to_csv(self.directory / 'metrics.csv', index_label='Round')


def export_final_state_desc_file(self, filename="final-state-descriptors.json"):
    hlp.export_json_file({
        'Equilibrium reached': 'Yes' if self.has_converged() else 'No',
        'Pool count': reporters.get_number_of_pools(self),
        'Operator count': reporters.get_operator_count(self),
        'Nakamoto coefficient': reporters.get_nakamoto_coefficient(self),
        'Total pledge fraction': (round(reporters.get_total_pledge(self), 4))
    }, self.directory / filename)


def append_to_experiment_tracker(self, filename='experiment-tracker.csv'):
    header = [
        "id", "n", "k", "a0", "phi", "activation order", "reward function",
        "descriptor", "-", "#pools", "#operators", "nakamoto coeff", "comments"
    ]
    row = [
        self.seq_id, self.n, self.reward_scheme.k, self.reward_scheme.a0, self.extra_pool_cost_fraction,
        self.agent_activation_order, type(self.reward_scheme).__name__,
        self.execution_id[self.execution_id.index('-') + 1:], "", reporters.get_number_of_pools(self),
        reporters.get_operator_count(self), reporters.get_nakamoto_coefficient(self), ""
    ]
    hlp.write_to_csv("output/" + filename, header, row)


# ---------------------------------------------------------------------------------------------------------------------
# scheduler

def semisimultaneous_init(self, model, simultaneous_moves=5, all_agents_move=True):
    BaseScheduler.__init__(self, model)
    self.simultaneous_moves = simultaneous_moves
    self.all_agents_move = all_agents_move


def semisimultaneous_step(self):
    keys = list(self._agents.keys())
    while len(keys) > 0:
        z = min(self.simultaneous_moves, len(keys))
        chosen = self.model.random.sample(keys, k=z)
        for key in chosen:
            self._agents[key].step()
        for key in chosen:
            self._agents[key].advance()
        if self.all_agents_move:
            keys = [key for key in keys if key not in chosen]
        else:
            keys = []
    self.steps += 1
    self.time += 1


def simulation_init(
        self, n=1000, k=100, a0=0.3, stake_distr_source='Pareto', agent_profile_distr=None,
        inactive_stake_fraction=0, inactive_stake_fraction_known=False, relative_utility_threshold=0,
        absolute_utility_threshold=0, seed=None, pareto_param=2.0, max_iterations=1000, cost_min=1e-5,
        cost_max=1e-4, extra_pool_cost_fraction=0.4, agent_activation_order="random",
        iterations_after_convergence=10, reward_scheme=0, execution_id='', seq_id=-1, parent_dir='',
        metrics=None, generate_graphs=True, input_from_file=False):
    if input_from_file:
        args = hlp.read_args_from_file("args.json")
    else:
        args = {
            'n': n, 'k': k, 'a0': a0, 'stake_distr_source': stake_distr_source,
            'agent_profile_distr': agent_profile_distr, 'inactive_stake_fraction': inactive_stake_fraction,
            'inactive_stake_fraction_known': inactive_stake_fraction_known,
            'relative_utility_threshold': relative_utility_threshold,
            'absolute_utility_threshold': absolute_utility_threshold, 'seed': seed, 'pareto_param': pareto_param,
            'max_iterations': max_iterations, 'cost_min': cost_min, 'cost_max': cost_max,
            'extra_pool_cost_fraction': extra_pool_cost_fraction, 'agent_activation_order': agent_activation_order,
            'iterations_after_convergence': iterations_after_convergence, 'reward_scheme': reward_scheme,
            'execution_id': execution_id, 'seq_id': seq_id, 'parent_dir': parent_dir, 'metrics': metrics,
            'generate_graphs': generate_graphs}
    if args['metrics'] is None:
        args['metrics'] = [1, 2, 6, 9, 17, 18, 25]
    if args['agent_profile_distr'] is None:
        args['agent_profile_distr'] = [1, 0, 0]
    seed = args['seed']
    if seed is None:
        seed = random.randint(0, 9999999)
    Model.__init__(self, seed=seed)
    self.random = random.Random(seed)
    seq_id = args['seq_id']
    if seq_id == -1:
        seq_id = hlp.read_seq_id() + 1
        hlp.write_seq_id(seq_id)
    self.seq_id = seq_id
    execution_id = args['execution_id']
    if execution_id == '' or execution_id == 'temp':
        execution_id = hlp.generate_execution_id(args)
    self.execution_id = str(seq_id) + '-' + execution_id
    self.directory = pathlib.Path.cwd() / "output" / args['parent_dir'] / self.execution_id
    self.directory.mkdir(parents=True)
    self.export_args_file(args)
    self.current_phase = 0
    self.reward_scheme = rss.RSS_MAPPING[args['reward_scheme']](-1, -1)
    phases = 1
    multi_phase_params = {}
    for field in ['n', 'k', 'a0', 'relative_utility_threshold', 'absolute_utility_threshold', 'max_iterations',
                  'extra_pool_cost_fraction', 'agent_activation_order', 'generate_graphs']:
        owner = self
        if field in vars(self.reward_scheme) or '_' + field in vars(self.reward_scheme):
            owner = self.reward_scheme
        value = args[field]
        if isinstance(value, list):
            multi_phase_params[field] = value
            setattr(owner, field, value[self.current_phase])
            phases = max(len(value), phases)
        else:
            setattr(owner, field, value)
    self.total_phases = phases
    self.multi_phase_params = multi_phase_params
    inactive = args['inactive_stake_fraction']
    if args['inactive_stake_fraction_known']:
        self.reward_scheme.k = self.reward_scheme.k / (1 - inactive)
        if 'k' in multi_phase_params:
            multi_phase_params['k'] = [k / (1 - inactive) for k in multi_phase_params['k']]
    self.running = True
    self.schedule = {'random': RandomActivation, 'sequential': BaseScheduler, 'simultaneous': SimultaneousActivation,
                     'semisimultaneous': SemiSimultaneousActivation}[self.agent_activation_order](self)
    self.pool_rankings = SortedList([None] * (self.reward_scheme.k + 1), key=hlp.pool_comparison_key)
    self.pool_rankings_myopic = SortedList([None] * (self.reward_scheme.k + 1), key=self.pool_comparison_key_myopic)
    total_stake = self.initialize_agents(args['agent_profile_distr'], args['cost_min'], args['cost_max'],
                                         args['pareto_param'], args['stake_distr_source'].lower(), seed)
    total_stake = total_stake / (1 - inactive)
    if total_stake <= 0:
        raise ValueError('')
    if total_stake != 1:
        total_stake = self.normalize_agent_stake(total_stake, inactive)
    self.total_stake = total_stake
    self.perceived_active_stake = total_stake
    self.export_initial_state_desc_file(seed)
    self.consecutive_idle_steps = 0
    self.current_step_idle = True
    self.iterations_after_convergence = args['iterations_after_convergence']
    self.pools = {}
    self.initialize_pool_id_seq()
    metrics = {}
    for i in args['metrics']:
        metrics[reporters.REPORTER_IDS[i]] = reporters.ALL_MODEL_REPORTEERS[reporters.REPORTER_IDS[i]]
    self.datacollector = DataCollector(model_reporters=metrics)
    self.start_time = time.time()
    self.equilibrium_steps = []
    self.pivot_steps = []
