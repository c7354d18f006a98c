from fractions import Fraction

from sa.obl import Eq, Table, Rule
from sa.terms import TRUE, FALSE, as_dd, lt, not_, num
import rules.custom as cu

H, S, P, R, A, M, B = ('logic.helper.', 'logic.sim.Simulation.', 'logic.pool.Pool.', 'logic.reward_schemes.',
                       'logic.stakeholder.Stakeholder.', 'logic.model_reporters.', 'custom_batchrunner.')
NM, MY, AB = ('logic.stakeholder_profiles.NonMyopicStakeholder.', 'logic.stakeholder_profiles.MyopicStakeholder.',
              'logic.stakeholder_profiles.Abstainer.')

O = {}


def eq(key, impl, spec, **kw):
    O[key] = Eq(impl, spec, **kw)


def both(key, name, spec, **kw):
    """a method as the two acting profiles run it"""
    eq(key + '@nm', NM + name, spec, **kw)
    eq(key + '@my', MY + name, spec, **kw)


# reward schemes ------------------------------------------------------------------------------------------------------
eq('rss.init', R + 'RSS.__init__', 'ref_rewards.rss_init')
for c in ('CardanoRSS', 'SimplifiedRSS', 'FlatPledgeBenefitRSS', 'CIP50RSS'):
    eq('rss.init.' + c, R + c + '.__init__', 'ref_rewards.rss_init')
eq('rss.init.Curve', R + 'CurvePledgeBenefitRSS.__init__', 'ref_rewards.curve_init',
   defaults=('crossover_factor', 'curve_root'))
for c, r in (('CardanoRSS', 'cardano'), ('SimplifiedRSS', 'simplified'), ('FlatPledgeBenefitRSS', 'flat'),
             ('CurvePledgeBenefitRSS', 'curve'), ('CIP50RSS', 'cip50')):
    eq('rss.reward.' + c, R + c + '.calculate_pool_reward', 'ref_rewards.reward_' + r)
    eq('rss.k.' + c, R + c + '.k', 'ref_rewards.rss_k', kind='getters')
    eq('rss.setk.' + c, R + c + '.k', 'ref_rewards.rss_set_k', kind='setters', note='setter')
    eq('rss.sat.' + c, R + c + '.get_pool_saturation_threshold',
       'ref_rewards.saturation_threshold' + ('_cip50' if c == 'CIP50RSS' else ''))
O['rss.map'] = Table(R + 'RSS_MAPPING', 'ref_rewards.RSS_MAPPING')

# economics -----------------------------------------------------------------------------------------------------------
for k, i, s in (('reward', 'calculate_pool_reward', 'pool_reward'),
                ('pp', 'calculate_potential_profit', 'potential_profit'),
                ('cp', 'calculate_current_profit', 'current_profit'),
                ('rdel', 'calculate_delegator_reward_from_pool', 'delegator_reward'),
                ('rop', 'calculate_operator_reward_from_pool', 'operator_reward'),
                ('uop', 'calculate_operator_utility_from_pool', 'operator_utility'),
                ('udel', 'calculate_delegator_utility_from_pool', 'delegator_utility'),
                ('margin', 'calculate_suitable_margin', 'suitable_margin'),
                ('des', 'calculate_pool_desirability', 'desirability'),
                ('mdes', 'calculate_myopic_pool_desirability', 'myopic_desirability'),
                ('cost', 'calculate_cost_per_pool', 'cost_per_pool'),
                ('pledge', 'calculate_pledge_per_pool', 'pledge_per_pool'),
                ('fromrank', 'calculate_non_myopic_pool_stake_from_rank', 'stake_from_rank'),
                ('nmstake', 'calculate_non_myopic_pool_stake', 'non_myopic_stake'),
                ('split', 'calculate_pool_splitting_profit', 'pool_splitting_profit'),
                ('key', 'pool_comparison_key', 'comparison_key'),
                ('target', 'find_target_pool', 'find_target_pool')):
    eq(k, H + i, 'ref_profit.' + s)
eq('mkey', S + 'pool_comparison_key_myopic', 'ref_profit.comparison_key_myopic')

# pools ---------------------------------------------------------------------------------------------------------------
eq('pool.init', P + '__init__', 'ref_profit.pool_init', defaults=('is_private',))
eq('pool.margin', P + 'margin', 'ref_profit.pool_margin', kind='getters')
eq('pool.setmargin', P + 'margin', 'ref_profit.pool_set_margin', kind='setters', note='setter')
eq('pool.profit', P + 'set_profit', 'ref_profit.pool_set_profit')
eq('pool.des', P + 'set_desirability', 'ref_profit.pool_set_desirability')
eq('pool.upd', P + 'update_delegation', 'ref_profit.pool_update_delegation')

# stakeholders --------------------------------------------------------------------------------------------------------
both('step', 'step', 'ref_stakeholder.step')
both('advance', 'advance', 'ref_stakeholder.advance')
eq('step@ab', AB + 'step', 'ref_stakeholder.step')
eq('advance@ab', AB + 'advance', 'ref_stakeholder.advance')
both('choose', 'update_strategy', 'ref_stakeholder.update_strategy')
eq('abstain', AB + 'update_strategy', 'ref_stakeholder.abstain')
both('ucur', 'calculate_current_utility', 'ref_stakeholder.current_utility')
both('uexp', 'calculate_expected_utility', 'ref_stakeholder.expected_utility')
both('npools', 'choose_pool_strategy', 'ref_stakeholder.choose_pool_strategy')
both('cmargin', 'calculate_margin', 'ref_stakeholder.calculate_margin')
both('keep', 'determine_pools_to_keep', 'ref_stakeholder.pools_to_keep')
both('acost', 'calculate_cost_per_pool', 'ref_stakeholder.cost_per_pool')
both('apledge', 'determine_pledge_per_pool', 'ref_stakeholder.pledge_per_pool')
both('draft', 'find_operator_move', 'ref_stakeholder.find_operator_move')
both('opdel', 'find_delegation_for_operator', 'ref_stakeholder.delegation_for_operator')
# its only caller has made sure that there is something to delegate
both('alloc', 'determine_stake_allocations', 'ref_stakeholder.determine_stake_allocations',
     assume={'stake_to_delegate': lambda t: not_(as_dd(lt(t, num(Fraction('2.2e-17')))))})
both('deleg', 'find_delegation_move', 'ref_stakeholder.find_delegation_move', defaults=('stake_to_delegate',))
both('exec', 'execute_strategy', 'ref_stakeholder.execute_strategy')
both('update', 'update_pool', 'ref_stakeholder.update_pool')
both('open', 'open_pool', 'ref_stakeholder.open_pool')
both('close', 'close_pool', 'ref_stakeholder.close_pool')
both('rmdel', 'remove_delegations', 'ref_stakeholder.remove_delegations')
eq('init@nm', NM + '__init__', 'ref_stakeholder.nonmyopic_init')
eq('init@my', MY + '__init__', 'ref_stakeholder.myopic_init')
eq('init@ab', AB + '__init__', 'ref_stakeholder.abstainer_init')
eq('strategy.init', 'logic.strategy.Strategy.__init__', 'ref_stakeholder.strategy_init',
   defaults=('stake_allocations', 'owned_pools'))
eq('nm.uop', NM + 'calculate_operator_utility_from_strategy', 'ref_stakeholder.nm_operator_utility')
eq('nm.uop1', NM + 'calculate_operator_utility_from_pool', 'ref_stakeholder.nm_operator_utility_from_pool')
eq('nm.udel', NM + 'calculate_delegator_utility_from_pool', 'ref_stakeholder.nm_delegator_utility')
eq('nm.margins', NM + 'calculate_margins_and_utility', 'ref_stakeholder.nm_margins_and_utility')
eq('my.uop', MY + 'calculate_operator_utility_from_strategy', 'ref_stakeholder.my_operator_utility')
eq('my.udel', MY + 'calculate_delegator_utility_from_pool', 'ref_stakeholder.my_delegator_utility')
eq('my.margins', MY + 'calculate_margins_and_utility', 'ref_stakeholder.my_margins_and_utility')
O['profile.map'] = Table('logic.stakeholder_profiles.PROFILE_MAPPING', 'ref_stakeholder.PROFILE_MAPPING')

# simulation ----------------------------------------------------------------------------------------------------------
for k, n in (('sim.step', 'step'), ('sim.run', 'run_model'), ('sim.conv', 'has_converged'),
             ('sim.phase', 'change_phase'), ('sim.wrap', 'wrap_up_execution'), ('sim.agents', 'initialize_agents'),
             ('sim.norm', 'normalize_agent_stake'), ('sim.seq0', 'initialize_pool_id_seq'),
             ('sim.nextid', 'get_next_pool_id'), ('sim.pools', 'get_pools_list'), ('sim.dict', 'get_agents_dict'),
             ('sim.list', 'get_agents_list'), ('sim.xargs', 'export_args_file'),
             ('sim.xinit', 'export_initial_state_desc_file'), ('sim.xagents', 'export_agents_file'),
             ('sim.xpools', 'export_pools_file'), ('sim.xmetrics', 'export_metrics_file'),
             ('sim.xfinal', 'export_final_state_desc_file'), ('sim.xtrack', 'append_to_experiment_tracker')):
    eq(k, S + n, 'ref_sim.' + n)
INIT_DEFAULTS = ('n', 'k', 'a0', 'stake_distr_source', 'agent_profile_distr', 'inactive_stake_fraction',
                 'inactive_stake_fraction_known', 'relative_utility_threshold', 'absolute_utility_threshold', 'seed',
                 'pareto_param', 'max_iterations', 'cost_min', 'cost_max', 'extra_pool_cost_fraction',
                 'agent_activation_order', 'iterations_after_convergence', 'reward_scheme', 'execution_id', 'seq_id',
                 'parent_dir', 'metrics', 'generate_graphs', 'input_from_file')
eq('sim.init', S + '__init__', 'ref_sim.simulation_init', assume={'input_from_file': FALSE}, note='arguments given',
   defaults=INIT_DEFAULTS)
eq('sim.init.file', S + '__init__', 'ref_sim.simulation_init', assume={'input_from_file': TRUE},
   note='arguments from a file', limit=300)
eq('semi.init', 'logic.activations.SemiSimultaneousActivation.__init__', 'ref_sim.semisimultaneous_init',
   defaults=('simultaneous_moves', 'all_agents_move'))
eq('semi', 'logic.activations.SemiSimultaneousActivation.step', 'ref_sim.semisimultaneous_step')

# metrics -------------------------------------------------------------------------------------------------------------
for k, i in (('number_of_pools', None), ('avg_margin', None), ('median_margin', None), ('avg_pledge', None),
             ('median_pledge', None), ('total_pledge', None), ('operator_count', None),
             ('avg_pools_per_operator', None), ('max_pools_per_operator', None), ('median_pools_per_operator', None),
             ('pool_splitter_count', None), ('avg_sat_rate', None), ('stakes_n_margins', None),
             ('stat_dist', 'get_controlled_stake_distr_stat_dist'), ('nakamoto_coefficient', None),
             ('pledge_rate', None), ('homogeneity_factor', None), ('iterations', None), ('avg_stk_rnk', None),
             ('avg_cost_rnk', None), ('median_stk_rnk', None), ('median_cost_rnk', None),
             ('cost_efficient_count', None), ('pool_stakes_by_agent', None), ('pool_stakes_by_agent_id', None),
             ('gini', 'gini_coefficient'), ('gini_count', 'get_gini_id_coeff_pool_count'),
             ('gini_count_k', 'get_gini_id_coeff_pool_count_k_agents'), ('gini_stake', 'get_gini_id_coeff_stake'),
             ('gini_stake_k', 'get_gini_id_coeff_stake_k_agents'), ('total_delegated_stake', None),
             ('active_stake_agents', None), ('stake_distr_stats', None)):
    eq('m.' + k, M + (i or 'get_' + k), 'ref_reporters.' + k)
eq('ranks', H + 'calculate_ranks', 'ref_reporters.calculate_ranks', defaults=('rank_ids',))
O['m.ids'] = Table(M + 'REPORTER_IDS', 'ref_reporters.REPORTER_IDS')
O['m.fns'] = Table(M + 'ALL_MODEL_REPORTEERS', 'ref_reporters.ALL_MODEL_REPORTEERS')

# distributions, validation, files ------------------------------------------------------------------------------------
eq('d.file', H + 'read_stake_distr_from_file', 'ref_helper.read_stake_distr_from_file', defaults=('seed',))
eq('d.disparity', H + 'generate_stake_distr_disparity', 'ref_helper.stake_distr_disparity', defaults=('x', 'c'))
eq('d.flat', H + 'generate_stake_distr_flat', 'ref_helper.stake_distr_flat')
eq('d.pareto', H + 'generate_stake_distr_pareto', 'ref_helper.stake_distr_pareto', defaults=('truncation_factor',))
eq('d.unfrm', H + 'generate_cost_distr_unfrm', 'ref_helper.cost_distr_uniform')
eq('d.cdisp', H + 'generate_cost_distr_disparity', 'ref_helper.cost_distr_disparity')
eq('d.bands', H + 'generate_cost_distr_bands', 'ref_helper.cost_distr_bands')
eq('d.nrm', H + 'generate_cost_distr_nrm', 'ref_helper.cost_distr_nrm')
for n in ('positive_int', 'non_negative_int', 'positive_float', 'non_negative_float', 'fraction'):
    eq('v.' + n, H + n, 'ref_helper.' + n)
for n in ('generate_execution_id', 'export_csv_file', 'export_json_file', 'read_args_from_file', 'read_seq_id',
          'write_seq_id', 'write_to_csv'):
    eq('f.' + n, H + n, 'ref_helper.' + n)


def callers_dict(e):
    """whether the dictionary passed in is changed or a new one is made of it does not matter"""
    return not (e.kind in ('update', 'setitem', 'pop') and e.args[0].op == 'param')


callers_dict.minor = True
eq('b.kwargs', B + '_make_model_kwargs', 'ref_batch.make_model_kwargs')
eq('b.collect', B + '_collect_data', 'ref_batch.collect_data')
eq('b.run', B + '_model_run_func', 'ref_batch.model_run')
eq('b.batch', B + 'custom_batch_run', 'ref_batch.batch_run', defaults=('number_processes', 'iterations', 'data_collection_period', 'max_steps', 'initial_seed'),
   keep=callers_dict)


# parts of the set-up of a simulation ---------------------------------------------------------------------------------
def part(fields=(), calls=(), kinds=()):
    """selects the effects of the set-up that a property is about"""
    fields, calls, kinds = set(fields), set(calls), set(kinds)

    def keep(e):
        if e.kind in kinds:
            return True
        a = e.args
        if e.kind == 'set':
            return len(a) > 1 and a[1].args[:1] and a[1].args[0] in fields
        if e.kind in ('call', 'mcall'):
            return a and a[0].args[:1] and a[0].args[0] in calls
        if e.kind == 'ext':
            return any(isinstance(x, str) and x.startswith(tuple(calls)) for x in (a[0].args if a else ())) if calls \
                else False
        return False
    return keep


for k, pt in (('seed', part(('random',), ('initialize_agents', 'export_initial_state_desc_file', 'random.'),
                            ('superinit',))),
              ('params', part(('reward_scheme', '_k', 'global_saturation_threshold', 'total_phases',
                               'multi_phase_params', 'current_phase'), ('__init__',), ('setattr',))),
              ('sched', part(('schedule',))),
              ('agents', part(('total_stake', 'perceived_active_stake', 'stake'),
                              ('initialize_agents', 'normalize_agent_stake'), ('raise',))),
              ('out', part(('seq_id', 'execution_id', 'directory'),
                           ('mkdir', 'read_seq_id', 'write_seq_id', 'generate_execution_id', 'export_args_file',
                            'export_initial_state_desc_file'))),
              ('rank', part(('pool_rankings', 'pool_rankings_myopic', 'pools'))),
              ('conv', part(('consecutive_idle_steps', 'current_step_idle', 'equilibrium_steps', 'pivot_steps',
                             'iterations_after_convergence', 'running', 'current_phase', 'total_phases'))),
              ('metrics', part(('datacollector',))),
              ('ids', part(('id_seq',), ('initialize_pool_id_seq',)))):
    eq('init.' + k, S + '__init__', 'ref_sim.simulation_init', keep=pt, assume={'input_from_file': FALSE},
       note=k + ' part')

# rules over the whole repository -------------------------------------------------------------------------------------
for k, n, kind, fn, least in (
        ('r.idcounter', 'who changes the pool id sequence', 'effect-analysis', cu.id_counter, 1),
        ('r.memo', 'memoised functions are pure', 'effect-analysis', cu.memo_pure, 1),
        ('r.shared', 'no state shared between runs', 'effect-analysis', cu.shared_state, 50),
        ('r.nondet', 'randomness comes from the seed only', 'call-graph reachability', cu.nondeterminism, 3),
        ('r.readonly', 'metrics do not change the model', 'effect-analysis', cu.metrics_readonly, 20),
        ('r.cliopts', 'options and their validation', 'option-table', cu.cli_options, 15),
        ('r.batchopts', 'options of batch runs', 'option-table', cu.batch_options, 10),
        ('r.clifwd', 'options reach the simulation', 'dataflow', cu.cli_forwarding, 15),
        ('r.docs', 'metric ids against the documentation', 'table-equals-documentation', cu.metric_docs, 20),
        ('r.seqfirst', 'sequence number recorded before the directory is created', 'effect-order',
         cu.recorded_first, 2),
        ('r.viz', 'labels of plots against metric names', 'table-cross-reference', cu.viz_labels, 3)):
    O[k] = Rule(n, kind, fn, least)
eq('cli.main', 'main.main', 'ref_main.main')
eq('cli.batch', 'batch-run.__main__', 'ref_main.batch', value=False, note='start of the simulations',
   keep=part((), ('custom_batch_run',)))
