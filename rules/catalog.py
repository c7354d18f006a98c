"""The properties: what each states, and which obligations (keys of rules.props.O) decide it."""

LH, LS, LP, LR, LK, LPR, LM, LST = ('logic/helper.py', 'logic/sim.py', 'logic/pool.py', 'logic/reward_schemes.py',
                                    'logic/stakeholder.py', 'logic/stakeholder_profiles.py',
                                    'logic/model_reporters.py', 'logic/strategy.py')
P = {}


def prop(pid, title, statement, over, text, why, files, mech, obs, minimum=None):
    P[pid] = dict(title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                  why=' '.join(why.split()), files=files, mech=mech, obs=obs, minimum=minimum or 1)


def acting(*names):
    return [n + s for n in names for s in ('@nm', '@my')]


RSS = ('CardanoRSS', 'SimplifiedRSS', 'FlatPledgeBenefitRSS', 'CurvePledgeBenefitRSS', 'CIP50RSS')

prop('P01', 'Pool rewards follow the formula of the selected reward scheme',
     """For every pledge, stake, k and a0, a pool's reward equals the formula of the reward scheme selected by its
     number: 0 original Cardano, 1 simplified, 2 flat pledge benefit, 3 curve pledge benefit (CIP-7, defaults:
     crossover factor 8, curve root 3), 4 CIP-50. Pledge (after applying the curve in scheme 3) and stake count only up
     to the saturation threshold 1/k, and the total distributed per epoch is 1 (divided by 1+a0 except in CIP-50, where
     the reward is the stake capped at min(a0*pledge, 1/k)).""",
     ['inputs', 'configurations'], 'all real pledges and stakes, all k >= 1, all a0 >= 0, all five schemes',
     """The tests evaluate each formula at a few points; a wrong branch of a cap, or a term that vanishes at the sampled
     points (pledge 0, a0 0, stake at saturation), is not seen.""",
     [LR, LH], [('reward formula of each scheme', LR), ('scheme lookup table', LR), ('dispatch', LH)],
     ['rss.reward.' + c for c in RSS] + ['reward', 'rss.map', 'rss.init', 'rss.init.Curve', 'rss.sat.CIP50RSS'] +
     ['rss.init.' + c for c in RSS if c != 'CurvePledgeBenefitRSS'])

prop('P02', 'Pool profit is split between operator and delegators as specified',
     """A pool's profit is its reward minus its cost. A positive profit is shared so that the operator gets
     margin + (1-margin) * (pledge / pool stake) of it and a delegator (1-margin) * (own delegation / pool stake);
     if the profit is zero or negative, the operator bears all of it and delegators get exactly 0.""",
     ['inputs'], 'all margins, costs, rewards, pledges, allocations and pool stakes',
     'Only reward formulas are sampled by the tests; the split, and its behaviour around a loss, is never tested.',
     [LH], [('operator share', LH), ('delegator share', LH), ('current profit', LH)],
     ['cp', 'rdel', 'rop', 'uop', 'udel', 'reward'])

prop('P03', 'The saturation threshold always corresponds to the current k',
     """At every moment, the global saturation threshold equals 1 divided by the value last assigned to k (before that
     value is truncated to an integer), and k itself reads as that integer; assigning 0 is rejected. The threshold of a
     pool equals the global one, except in the CIP-50 scheme where it is the smaller of that and a0 times the
     pledge.""",
     ['inputs', 'histories'], 'every assignment of k (initial, known inactive stake, phase change), every pledge',
     'The tests build schemes once with one k; they do not follow reassignments.',
     [LR], [('k property', LR), ('pool saturation threshold', LR)],
     ['rss.k.' + c for c in RSS] + ['rss.setk.' + c for c in RSS] + ['rss.sat.' + c for c in RSS] +
     ['rss.init', 'rss.init.Curve'] + ['rss.init.' + c for c in RSS if c != 'CurvePledgeBenefitRSS'])

prop('P04', 'Cost and pledge of each pool follow the multi-pool model',
     """An agent that runs t >= 1 pools has cost (c + (t-1)*phi*c)/t per pool, where c is the agent's initial cost and phi
     the extra pool cost fraction, and pledges min(own stake / t, global saturation threshold) to each of them. Asking
     for a pledge for zero or fewer pools is rejected.""",
     ['inputs'], 'all numbers of pools, costs, cost fractions, stakes and thresholds',
     'One cost example is tested; pledges, their cap, and the way agents use both are not.',
     [LH, LK], [('cost per pool', LH), ('pledge per pool', LH), ('agent accessors', LK)],
     ['cost', 'pledge'] + acting('acost', 'apledge'))

prop('P05', 'Potential profit and desirability always match the pool they describe',
     """A pool's potential profit equals the reward of a pool with its pledge at its saturation threshold minus its cost,
     and its desirability equals max((1-margin) * potential profit, 0); the myopic desirability is the same with the
     current profit. Both stored values are brought up to date by every operation that creates a pool, changes its
     pledge, cost or margin, or changes the reward scheme parameters.""",
     ['inputs', 'histories'], 'all pools, all sequences of draft, update, margin change and phase change',
     'Staleness shows only after specific sequences of updates, which no test performs.',
     [LP, LH, LK, LS], [('margin setter recomputes desirability', LP), ('set_profit', LP), ('draft of an operator move', LK),
                        ('phase change', LS)],
     ['pp', 'cp', 'des', 'mdes', 'pool.init', 'pool.margin', 'pool.setmargin', 'pool.profit', 'pool.des', 'sim.phase'] +
     acting('draft'))

prop('P06', 'The non-myopic stake of a pool follows from its rank',
     """The non-myopic stake of a ranked pool is max(its saturation threshold, its current stake) if the saturation
     thresholds of all pools ranked above it add up to strictly less than the total stake (by more than the smallest
     stake unit), and its pledge otherwise. Empty places in the ranking count for nothing.""",
     ['inputs', 'histories'], 'all rankings (with empty places anywhere), all positions, all thresholds',
     'The tests try a handful of rankings without empty places above the pool.',
     [LH], [('rank test', LH), ('stake from rank', LH)],
     ['nmstake', 'fromrank', 'key'])

prop('P08', 'Non-myopic agents value strategies by long-term expectations',
     """A non-myopic agent values a strategy as the sum of the operator rewards of its pools and the delegator rewards of
     its allocations to pools that exist, each computed at the pool's non-myopic stake. Own pools are ranked among all
     pools of other agents together with the strategy's pools; a pool delegated to counts with at least its current
     stake corrected for the agent's own present and planned allocation.""",
     ['inputs', 'histories'], 'all strategies, rankings and pool states',
     'No test evaluates expected utilities.',
     [LPR, LK, LH], [('expected utility', LK), ('operator and delegator utility', LPR)],
     ['uexp@nm', 'nm.uop', 'nm.uop1', 'nm.udel', 'nmstake', 'fromrank', 'uop', 'udel', 'rop', 'rdel', 'key'])

prop('P09', 'Myopic agents value strategies by the current state',
     """A myopic agent values a strategy as the sum of the operator rewards of its pools at their present stake and the
     delegator rewards of its allocations to pools that exist, at the pool's present stake minus the agent's present
     allocation to it plus the planned one.""",
     ['inputs', 'histories'], 'all strategies and pool states',
     'No test evaluates expected utilities of myopic agents.',
     [LPR, LK, LH], [('expected utility', LK), ('operator and delegator utility', LPR)],
     ['uexp@my', 'my.uop', 'my.udel', 'uop', 'udel', 'rop', 'rdel'])

prop('P10', 'Margins are chosen to outperform the targeted pools, and are never negative',
     """For the i-th of t pools the target is the pool of another agent ranked k-i+1 (desirability 0 if that place is
     empty), to be beaten by 1e-6. Non-myopic: margin 0 if the potential profit per pool is below the target's
     desirability plus 1e-6, else max(1 - d/potential profit, 0) with d the larger of that and the target's potential
     profit; the predicted utility counts the former at pledge only and the latter at saturation. Myopic: the same margin
     formula with the expected current profit and the target's current (margin-adjusted, non-negative) profit.""",
     ['inputs', 'histories'], 'all rankings, numbers of pools, costs and stakes',
     'No test calculates margins.',
     [LPR, LK, LH], [('margins and utility per profile', LPR), ('suitable margin', LH), ('margin fallback', LK)],
     ['nm.margins', 'my.margins', 'margin', 'mdes', 'cp', 'pp', 'cost', 'pledge'] + acting('cmargin', 'acost', 'apledge'))

prop('P11', 'Agents move only for gains above their thresholds, preferring the easiest move',
     """In each step an agent compares its current strategy, a pure delegation move and (if one exists) an operator move.
     The current strategy counts with the largest of its present and its expected utility, each raised both by the
     relative and by the absolute utility threshold; the option with the highest utility wins, ties going to the current
     strategy first, delegation second, operation last. No new strategy is staged when the current one wins.""",
     ['inputs', 'histories'], 'all states of the system and all threshold values',
     'Ties and thresholds need particular utilities; the tests do not run the selection.',
     [LK], [('move selection', LK), ('current utility', LK)],
     acting('choose', 'ucur', 'uexp') + ['uop', 'udel'])

prop('P12', 'The number of pools to run is found by the documented search',
     """An operator candidate searches the number of pools between 1 and k by bisection: from the middle of the interval
     it moves below if one pool fewer is strictly better, else above if one pool more is strictly better, else stops
     there; neighbours outside the interval are not tried. When it would run fewer pools than it owns, it keeps the best
     by desirability, then potential profit, then stake, then age; otherwise it keeps all, and in both cases it works on
     copies.""",
     ['inputs', 'histories'], 'all utility functions of the number of pools, all k, all sets of owned pools',
     'The tests check which pools are kept in one constellation only; the search is not tested.',
     [LK], [('search', LK), ('pools to keep', LK)],
     acting('npools', 'keep'))

prop('P13', 'A drafted operator move is complete and consistent',
     """A drafted operator move with t pools has exactly t pools: copies of the pools kept, then new ones with fresh ids
     owned by the agent. All get the agent's pledge and cost for t pools, the margin planned for their position,
     up-to-date profit and desirability, and are private exactly when the pledge reaches the pool's saturation threshold;
     a kept pool's stake changes by exactly the change of its pledge. Stake beyond the total pledge is delegated, and
     only that.""",
     ['inputs', 'histories'], 'all numbers of pools, sets of kept pools and margins',
     'No test drafts an operator move on existing pools.',
     [LK, LP], [('draft', LK), ('delegation of operators', LK), ('pool construction', LP)],
     acting('draft', 'opdel', 'acost', 'apledge', 'cmargin') +
     ['pool.init', 'pool.profit', 'pool.des', 'pool.setmargin', 'strategy.init', 'sim.nextid'])

prop('P14', 'Delegation goes to the best-ranked pools with free capacity',
     """To delegate, an agent goes through the ranking it follows and considers public pools of other agents only, filling
     each up to its saturation threshold (as if its own present delegations were withdrawn) until its stake is used up.
     Stake that fits nowhere goes to the best saturated pool; if there is no eligible pool nothing is delegated, and
     amounts below the smallest stake unit are never allocated.""",
     ['inputs', 'histories'], 'all rankings, pool stakes, present allocations and amounts',
     'No test runs the allocation with partially filled pools or present delegations.',
     [LK], [('stake allocation', LK), ('delegation move', LK)],
     acting('alloc', 'deleg', 'opdel') + ['strategy.init', 'pool.upd'])

prop('P15', 'Working out a move leaves the shared state as it was found',
     """While an agent works out its next move, it changes nothing that others can observe: pools, delegations, rankings,
     its own and other agents' strategies are the same afterwards, apart from the staged new strategy and the consumed
     pool ids. Temporary withdrawal of its delegations is undone completely.""",
     ['inputs', 'histories'], 'all states in which an agent decides',
     'A leak shows only for agents that already delegate or own pools, and only in later steps.',
     [LK, LPR, LH], [('withdraw and return delegations', LK), ('work on copies of owned pools', LK),
                     ('utilities read only', LPR)],
     acting('choose', 'npools', 'keep', 'cmargin', 'draft', 'opdel', 'alloc', 'deleg', 'ucur', 'uexp') +
     ['nm.uop', 'nm.uop1', 'nm.udel', 'nm.margins', 'my.uop', 'my.udel', 'my.margins', 'nmstake', 'pool.upd'])

prop('P16', 'Abstaining agents never take part',
     """An abstaining agent never holds a strategy, never stages a move, never makes a step count as active, and is reported
     as an abstainer without pools at the end of a run. Profile numbers 0, 1 and 2 stand for non-myopic, myopic and
     abstaining agents.""",
     ['histories', 'configurations'], 'all runs with abstaining agents, under every activation order',
     'No test simulates abstaining agents.',
     [LPR, LK, LS], [('profile of abstainers', LPR), ('report of agents', LS)],
     ['abstain', 'init@ab', 'step@ab', 'advance@ab', 'profile.map', 'sim.xagents'])

prop('P17', 'The stake of a pool is its pledge plus the delegations to it',
     """A pool starts with its pledge as stake. Recording a delegation replaces the previous one of the same agent and
     changes the stake by exactly the difference, dropping records below the smallest stake unit; changing the pledge
     changes the stake by exactly the difference; and an updated pool keeps the delegations that exist at that time.""",
     ['inputs', 'histories'], 'all sequences of delegating, re-delegating, withdrawing, updating and closing',
     'Drift between stake and records needs sequences of moves, which the tests do not perform.',
     [LP, LK], [('recording delegations', LP), ('pool update', LK), ('removal of delegations', LK)],
     ['pool.init', 'pool.upd'] + acting('draft', 'update', 'rmdel', 'close', 'exec'))

prop('P18', 'Delegations are recorded identically by the agent and by the pool',
     """After an agent has executed a strategy, each of its allocations is recorded in the pool under the agent's id and
     in no other pool. When a pool closes or turns private, every delegation to it disappears from the pool, from the
     current strategies of all its delegators and, if agents move (semi)simultaneously, from every staged strategy.""",
     ['histories', 'schedules'], 'all sequences of strategies of all agents, all activation orders',
     'No test executes strategies of several agents against each other.',
     [LK, LP], [('execution', LK), ('removal of delegations', LK), ('recording delegations', LP)],
     acting('exec', 'rmdel', 'close', 'update') + ['pool.upd', 'sim.dict'])

prop('P19', 'Pool registry, ownership and rankings always agree',
     """Executing a strategy closes exactly the owned pools it no longer contains, updates those it still contains and opens
     the new ones. Every open pool is registered under its id, owned by one strategy as the very same object, and appears
     exactly once in each of the two rankings; closed or replaced pools appear in none of them.""",
     ['histories', 'schedules'], 'all sequences of strategies of all agents, all phases',
     'The tests do not follow pools through updates and closures.',
     [LK, LS], [('execution', LK), ('open, update, close', LK), ('phase change', LS)],
     acting('exec', 'open', 'close', 'update', 'rmdel') + ['sim.phase', 'strategy.init'])

prop('P20', 'Ranked pools keep their ranking keys until they are taken out',
     """Nothing that a ranking sorts by changes while a pool is in that ranking: whoever changes a pool's stake, margin,
     pledge or cost, or the reward scheme, first takes the pool out of every ranking whose order depends on it and puts
     it back afterwards. In particular, a pool is taken out of the myopic ranking around every change of its stake.""",
     ['histories', 'schedules'], 'all sequences of delegations, updates, closures and phase changes',
     'A sorted container with stale keys misbehaves only later and only in certain constellations.',
     [LK, LS], [('rankings around stake changes', LK), ('phase change', LS)],
     acting('alloc', 'exec', 'update', 'close', 'open', 'rmdel') + ['sim.phase', 'key', 'mkey'])

prop('P21', 'Each ranking orders pools by its documented criterion',
     """The non-myopic ranking orders pools by descending desirability, then descending potential profit, then ascending id;
     the myopic one by descending current margin-adjusted non-negative profit, then ascending id; empty places rank as
     desirability 0. Non-myopic agents follow the former, myopic agents the latter.""",
     ['inputs'], 'all pools, including ties in every criterion',
     'Ties in desirability and potential profit are not exercised by the tests.',
     [LH, LS, LPR], [('ranking keys', LH), ('myopic key', LS), ('choice of ranking per profile', LPR)],
     ['key', 'mkey', 'mdes', 'cp', 'init@nm', 'init@my'])

prop('P22', 'Private pools never receive delegations',
     """A pool whose pledge reaches its saturation threshold is private. No agent allocates stake to a private pool, and a
     pool that turns private loses all its current delegations and all upcoming ones.""",
     ['histories', 'schedules'], 'all sequences in which pools turn private, all activation orders',
     'Needs an operator with enough stake to saturate a pool that already has delegators.',
     [LK], [('eligibility', LK), ('privacy of drafted pools', LK), ('pool update', LK)],
     acting('alloc', 'draft', 'update', 'rmdel'))

prop('P24', 'Convergence is declared exactly after the required idle steps, and runs end',
     """A step is idle if no agent executed a new strategy in it. After the configured number of consecutive idle steps the
     equilibrium step is recorded as the current step minus that number, and the run moves to its next phase or ends; any
     active step restarts the count. A run also ends when the iteration limit is reached, and in both cases all final
     outputs are written.""",
     ['histories', 'configurations'], 'all sequences of idle and active steps, all limits and phases',
     'The tests run one short simulation without looking at the bookkeeping of idle steps.',
     [LS, LK], [('step', LS), ('run loop', LS), ('idle flag', LK)],
     ['sim.step', 'sim.run', 'sim.conv', 'sim.wrap'] + acting('advance') + ['advance@ab'])

prop('P25', 'Agents act once per step, and moves are applied as the activation order demands',
     """In each step every agent works out its move exactly once. If agents move one after another, each applies its move
     at once; under simultaneous and semi-simultaneous activation moves are only staged first and applied after all
     agents (of the group) have decided. Semi-simultaneous activation takes groups of five drawn at random without
     replacement from the model's own generator until all agents have had their turn.""",
     ['schedules', 'configurations'], 'all activation orders and numbers of agents (also not divisible by the group size)',
     'Only the random order is used by the tests.',
     [LK, 'logic/activations.py'], [('step and advance', LK), ('semi-simultaneous activation', 'logic/activations.py')],
     acting('step', 'advance') + ['step@ab', 'advance@ab', 'semi', 'semi.init'])

prop('P26', 'A phase change applies all new parameters consistently',
     """When the system enters a new phase, each parameter with several values takes the value of that phase if there is
     one (else keeps its last), reward scheme parameters in the reward scheme and others in the simulation. All pools are
     re-evaluated and re-ranked under the new parameters, rankings have at least k+1 empty places, the idle count starts
     again, and the step is recorded as a pivot exactly if some parameter had a value for the phase.""",
     ['configurations', 'histories'], 'all lists of parameter values, all states at the time of the change',
     'No test runs a second phase.',
     [LS, LP], [('phase change', LS), ('re-evaluation', LP)],
     ['sim.phase', 'pool.profit', 'pool.des', 'pp', 'des', 'sim.step'] + ['rss.setk.' + c for c in RSS])

prop('P28', 'Initial stakes and costs follow the chosen distributions',
     """Stakes are drawn as selected: Pareto samples (shape as configured, scale 1), equal stakes, the two-level
     distribution (3 agents share 0.3), or the values of the file for that number of agents (else sampled from the default
     file, without replacement if it has more values than needed); costs are uniform between minimum and maximum. Each
     distribution yields one value per agent, random ones use a generator made from the given seed only, and a maximum
     cost below the minimum is rejected.""",
     ['inputs', 'configurations'], 'all numbers of agents, shapes, bounds and seeds',
     'The tests sample one size per distribution.',
     [LH], [('stake distributions', LH), ('cost distributions', LH)],
     ['d.file', 'd.disparity', 'd.flat', 'd.pareto', 'd.unfrm', 'd.cdisp', 'd.bands', 'd.nrm', 'sim.agents'])

prop('P30', 'Final output files describe the final state faithfully',
     """The pools file has one row per open pool and the stakeholders file one row per agent in id order, each column taken
     from the quantity its header names (stakes, costs and margins rounded to 15 decimals); an agent is reported as
     abstainer, operator or delegator by its final strategy. The final descriptors give convergence, pool count, operator
     count, Nakamoto coefficient and total pledge of the final state, and the metrics file has every tracked metric for
     every round.""",
     ['histories'], 'all final states',
     'The tests check that a run finishes, not what it writes.',
     [LS, LH], [('export of pools, agents, metrics, descriptors', LS), ('file writers', LH)],
     ['sim.xpools', 'sim.xagents', 'sim.xmetrics', 'sim.xfinal', 'sim.xtrack', 'f.export_csv_file',
      'f.export_json_file', 'f.write_to_csv', 'split', 'pp', 'sim.dict', 'sim.pools'])

prop('P33', 'Metrics on pools, pledges and margins report what they are documented to',
     """For every state, the tracked metrics on pools (count, total, mean and median pledge, mean and median margin,
     pools per operator, saturation rate, pledge rate, homogeneity, total stake delegated or held, iterations, pool
     splitters, operators, stake per agent) equal their documented definitions over the pools that are open and the agents
     that exist. With no pools they report 0 (or empty) and do not fail.""",
     ['inputs', 'histories'], 'all sets of pools and agents, including none',
     'A third of the metrics has a test, each with one or two small examples.',
     [LM], [('reporters', LM)],
     ['m.number_of_pools', 'm.avg_margin', 'm.median_margin', 'm.avg_pledge', 'm.median_pledge', 'm.total_pledge',
      'm.operator_count', 'm.avg_pools_per_operator', 'm.max_pools_per_operator', 'm.median_pools_per_operator',
      'm.pool_splitter_count', 'm.avg_sat_rate', 'm.stakes_n_margins', 'm.pledge_rate', 'm.homogeneity_factor',
      'm.iterations', 'm.pool_stakes_by_agent', 'm.pool_stakes_by_agent_id', 'm.total_delegated_stake',
      'm.active_stake_agents', 'm.stake_distr_stats', 'm.cost_efficient_count', 'sim.pools', 'sim.dict', 'sim.list'])

prop('P34', 'Decentralisation metrics report what they are documented to',
     """The Nakamoto coefficient is the least number of agents whose pools together hold strictly more than half of the
     stake in pools (before any pool exists: of the agents' stake); the statistical distance is half the sum of absolute
     differences between stake controlled and stake held over all agents; Gini metrics are half the relative mean absolute
     difference over operators (optionally padded with zeros up to k). Mean and median ranks of operators use stake or
     negated cost ranks over all agents, ties going to the lower id, and are taken over pools.""",
     ['inputs', 'histories'], 'all sets of pools and agents, including ties and none',
     'The tests use one or two small examples without ties.',
     [LM, LH], [('reporters', LM), ('ranks', LH)],
     ['m.stat_dist', 'm.nakamoto_coefficient', 'm.avg_stk_rnk', 'm.avg_cost_rnk', 'm.median_stk_rnk',
      'm.median_cost_rnk', 'm.gini', 'm.gini_count', 'm.gini_count_k', 'm.gini_stake', 'm.gini_stake_k', 'ranks'])

prop('P40', 'Pool ids are never reused within a run',
     """Every pool drafted in a run gets an id that is larger than all ids given out before in that run, whoever drafts it
     and whether or not it is opened. The sequence starts at 1 for each run.""",
     ['histories', 'schedules'], 'all sequences of drafts by all agents',
     'Reuse would need interleaved drafts of several agents.',
     [LS, LK], [('id sequence', LS), ('draft', LK)],
     ['sim.nextid', 'sim.seq0', 'sim.run'] + acting('draft'))

prop('P07', 'Remembered results and shared objects never leak between states or runs',
     """A result that is remembered between calls depends on nothing but the (immutable) values of the arguments, so
     asking again after the state has changed gives the same answer as computing it afresh. No run leaves anything
     behind, in shared variables, default arguments or class attributes, that a later run in the same process could
     notice.""",
     ['histories', 'inputs'], 'all sequences of calls of memoised functions and of simulations in one process',
     'Every test computes a value once, on fresh objects; staleness needs a second call after a change of state.',
     [LH, LR, LS, LK], [('memoised functions', LH), ('reward schemes', LR)],
     ['r.memo', 'r.shared'])

prop('P23', 'Equal parameters and seed give identical runs',
     """Two runs with the same parameters and the same seed produce the same stakes, costs, profiles, activation orders,
     moves and metrics. Whatever is random in a run comes from generators made from the seed of the run; if no seed is
     given, one is drawn, used for everything and reported in the initial state descriptors.""",
     ['configurations', 'histories', 'schedules'], 'all parameters and seeds, all activation orders and distributions',
     'The tests compare no two runs; a single call of the process-wide generator anywhere breaks this.',
     [LS, LH, 'logic/activations.py', LK], [('seeding', LS), ('distributions', LH), ('activation', 'logic/activations.py')],
     ['r.nondet', 'init.seed', 'sim.agents', 'semi', 'd.pareto', 'd.unfrm', 'd.cdisp', 'd.bands', 'd.nrm', 'd.file',
      'd.flat', 'd.disparity', 'sim.xinit', 'r.shared'])

prop('P27', 'Initial stakes are normalised so that active and inactive stake add up to one',
     """A run starts with exactly the requested number of agents, with ids from 0 and a profile each, drawn with the given
     weights. Stakes are scaled so that the agents together own 1 minus the inactive stake fraction, rounding errors
     going to the last agent, and the total stake including the inactive part is 1; a non-positive total is rejected.""",
     ['inputs', 'configurations'], 'all distributions, numbers of agents, profile weights and inactive fractions',
     'One test checks the sum of stakes for one configuration without inactive stake.',
     [LS], [('creation of agents', LS), ('normalisation', LS)],
     ['sim.agents', 'sim.norm', 'init.agents', 'm.active_stake_agents', 'profile.map', 'init@nm', 'init@my', 'init@ab'])

prop('P29', 'A run can be repeated from the files it leaves behind',
     """Each run stores all its parameters, completed by the defaults that were used, in its output directory before it
     starts, and a run started from such a file takes every parameter from it. The initial state descriptors give the
     seed that was used, the active stake, the statistics of the agents' stakes, the initial Nakamoto coefficient and the
     number of cost-efficient agents.""",
     ['configurations'], 'all parameters, given as arguments, left out, or read from a file',
     'The tests do not read the files that runs write.',
     [LS, LH, LM], [('export of arguments', LS), ('initial descriptors', LS), ('reading arguments', LH)],
     ['sim.xargs', 'sim.xinit', 'f.export_json_file', 'f.read_args_from_file', 'sim.init.file', 'init.out', 'init.seed',
      'm.stake_distr_stats', 'm.nakamoto_coefficient', 'm.cost_efficient_count', 'm.active_stake_agents'])

prop('P31', 'Runs never overwrite the output of other runs',
     """Each run without a given sequence number takes the next one after the last recorded number and records it before
     it creates its output directory, whose name starts with that number. A directory that already exists is never
     reused, and shared result tables are only appended to, with one header at their top.""",
     ['histories', 'configurations'], 'all sequences of single and batch runs, with and without names',
     'Needs several runs that share an output directory; the tests look at none.',
     [LS, LH, 'custom_batchrunner.py'], [('sequence numbers', LH), ('output directory', LS), ('tables', LH),
                                         ('batch directory', 'custom_batchrunner.py')],
     ['f.read_seq_id', 'f.write_seq_id', 'f.generate_execution_id', 'init.out', 'f.write_to_csv', 'sim.xtrack',
      'b.batch', 'r.seqfirst'])

prop('P32', 'Selected metrics are tracked under their documented numbers and names',
     """A metric number stands for the metric that the documentation lists under it, and is computed by the function of
     that metric. A run tracks exactly the selected metrics (or the default selection), once at the start of each
     step including the last.""",
     ['configurations'], 'all metric numbers and selections',
     'The tests call metric functions directly and never go through their numbers or names.',
     [LM, LS, 'docs/metrics.md'], [('table of numbers', LM), ('table of functions', LM), ('selection', LS)],
     ['m.ids', 'm.fns', 'r.docs', 'init.metrics', 'sim.step'])

prop('P35', 'Measuring does not influence the simulation',
     """Computing any metric leaves agents, pools, rankings and schedules exactly as they were, so a run takes the same
     course whichever metrics are tracked. The same holds for everything written at the end of a run.""",
     ['histories', 'configurations'], 'all metrics, all states, all selections of metrics',
     'The tests look at the returned values only.',
     [LM, LS], [('reporters', LM), ('exports', LS)],
     ['r.readonly', 'sim.xagents', 'sim.xpools', 'sim.xmetrics', 'sim.xfinal', 'sim.xtrack', 'sim.xinit', 'sim.list',
      'sim.dict', 'sim.pools', 'ranks', 'm.avg_stk_rnk', 'm.avg_cost_rnk', 'm.median_stk_rnk', 'm.median_cost_rnk'])

prop('P37', 'Every option of a run takes effect on the parameter of its name',
     """Each option of the command line is passed to the simulation under its own name, and each parameter of a simulation
     determines the quantity it is named after: reward scheme parameters in the reward scheme, the rest in the
     simulation. Parameters given as lists take their first value at the start; with known inactive stake, every value
     of k is scaled by 1/(1 - inactive fraction).""",
     ['configurations'], 'all options and parameters, single values and lists',
     'The tests set a handful of parameters and do not go through the command line.',
     ['main.py', LS, LH, 'batch-run.py'], [('command line', 'main.py'), ('set-up', LS)],
     ['cli.main', 'cli.batch', 'r.clifwd', 'r.cliopts', 'r.batchopts', 'sim.init', 'init.params', 'init.sched',
      'sim.agents'])

prop('P38', 'Invalid option values are rejected and valid ones accepted',
     """Options restricted to positive or non-negative numbers or to fractions accept exactly the values in their range,
     in every notation of Python numbers, and reject all others with an error about the argument. Metric numbers and
     reward schemes are limited to those that exist, and each option has its documented type and default.""",
     ['inputs'], 'all argument strings, including bounds, signs, decimals and text',
     'The tests try a few values per validator.',
     [LH, 'batch-run.py'], [('validators', LH), ('options', LH)],
     ['v.positive_int', 'v.non_negative_int', 'v.positive_float', 'v.non_negative_float', 'v.fraction', 'r.cliopts',
      'r.batchopts'])

prop('P39', 'Batch runs cover every combination of parameters once and report each faithfully',
     """A batch run simulates every combination of the listed parameter values, for each iteration with the initial seed
     plus the iteration number, each with its own sequence number and name. Results carry the parameters of their
     run and the metrics of the requested steps, always including the last; the aggregate table gets one row per run, with
     the varying parameters and the metrics of its last step.""",
     ['configurations'], 'all parameter sets, iterations, collection periods and numbers of processes',
     'No test touches batch runs.',
     ['custom_batchrunner.py', 'batch-run.py'], [('combinations', 'custom_batchrunner.py'),
                                                 ('one run', 'custom_batchrunner.py'), ('options', 'batch-run.py')],
     ['b.kwargs', 'b.collect', 'b.run', 'b.batch', 'cli.batch', 'f.write_to_csv', 'f.read_seq_id', 'f.write_seq_id'])

prop('P41', 'Charts of the visualisation show metrics that the visualised model tracks',
     """Every chart of the interactive visualisation is labelled with the name of a metric, and the visualised model tracks
     that metric, so that each chart has data in every step.""",
     ['configurations'], 'all charts and metrics of the visualisation',
     'The tests never start the visualisation.',
     ['interactiveViz/runViz.py', LM], [('charts', 'interactiveViz/runViz.py'), ('metric names', LM)],
     ['r.viz', 'm.ids'])

# obligations on what the functions above rely on
MORE = {
    'P01': ['init.params'] + ['rss.sat.' + c for c in RSS],
    'P03': ['init.params', 'sim.phase'],
    'P04': acting('draft', 'npools'),
    'P05': ['margin', 'cost', 'pledge', 'reward'] + acting('update', 'acost', 'apledge'),
    'P06': ['nm.uop', 'nm.uop1', 'nm.udel'],
    'P08': ['reward', 'ucur@nm', 'init@nm'],
    'P09': ['cp', 'reward', 'ucur@my', 'init@my'],
    'P10': ['des', 'reward', 'target', 'rdel', 'rop', 'uop', 'key', 'mkey', 'nmstake', 'fromrank', 'init@nm', 'init@my'] +
           acting('npools', 'draft'),
    'P11': acting('step', 'advance', 'draft', 'deleg', 'npools'),
    'P12': acting('draft', 'cmargin'),
    'P13': ['cost', 'pledge', 'pp', 'des', 'pool.margin'] + acting('keep', 'deleg', 'alloc'),
    'P14': ['key', 'mkey', 'init@nm', 'init@my', 'pool.init'],
    'P15': ['sim.nextid', 'pool.init', 'strategy.init'] + acting('acost', 'apledge', 'step'),
    'P16': ['sim.agents', 'sim.step', 'init.agents'],
    'P17': ['strategy.init'] + acting('alloc', 'open', 'opdel'),
    'P18': ['strategy.init'] + acting('open', 'alloc', 'deleg', 'opdel', 'advance'),
    'P19': ['init.rank', 'pool.init', 'sim.pools'] + acting('alloc', 'draft', 'keep', 'advance'),
    'P20': ['pool.upd', 'pool.setmargin', 'init.rank'] + acting('deleg', 'draft', 'opdel'),
    'P21': ['init.rank', 'pp', 'des', 'sim.phase', 'target', 'nm.margins', 'my.margins', 'fromrank', 'nmstake'] +
           acting('alloc'),
    'P22': ['pledge', 'pool.init'] + acting('opdel', 'deleg', 'exec', 'apledge') + ['rss.sat.' + c for c in RSS],
    'P24': ['init.conv', 'sim.phase', 'sim.xfinal'] + acting('step'),
    'P25': ['init.sched', 'sim.step'],
    'P26': ['init.params', 'init.rank', 'init.conv', 'pool.setmargin', 'key', 'mkey'],
    'P28': ['init.agents', 'init.seed', 'init.params'],
    'P30': ['m.number_of_pools', 'm.operator_count', 'm.nakamoto_coefficient', 'm.total_pledge', 'sim.wrap', 'sim.conv',
            'init.out', 'sim.step'],
    'P33': ['m.ids', 'm.fns'],
    'P34': ['m.ids', 'm.fns', 'sim.pools', 'sim.dict', 'sim.list'],
    'P40': ['r.idcounter', 'init.ids', 'pool.init'] + acting('open', 'step'),
}
for _pid, _obs in MORE.items():
    P[_pid]['obs'] = list(dict.fromkeys(P[_pid]['obs'] + _obs))
RULES = 'static analysis: '
P['P07']['tech'] = RULES + 'effect analysis of every function (stores to shared objects) and purity analysis of memoised ' \
    'functions over their value graphs'
P['P23']['tech'] = RULES + 'call-graph reachability of sources of nondeterminism from the simulation, plus value graphs ' \
    'of seeding and sampling compared with reference semantics'
P['P32']['tech'] = RULES + 'tables and value graphs compared with reference semantics and with the documentation'
P['P35']['tech'] = RULES + 'effect analysis of every tracked metric (no store outside fresh objects), plus value graphs ' \
    'of the exports compared with reference semantics'
P['P37']['tech'] = RULES + 'dataflow from options to parameters, option tables, and value graphs of the set-up compared ' \
    'with reference semantics'
P['P38']['tech'] = RULES + 'value graphs of the validators compared with reference semantics, and option tables'
P['P40']['tech'] = RULES + 'effect analysis of the id counter over the call graph, plus value graphs compared with ' \
    'reference semantics'
P['P41']['tech'] = RULES + 'cross-reference of chart labels, tracked metric numbers and the table of metric names'

NOT_APPLICABLE = {}


def na(pid, title, statement, over, text, why, files, mech, reason):
    NOT_APPLICABLE[pid] = dict(title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                               why=' '.join(why.split()), files=files, mech=mech, reason=' '.join(reason.split()))


na('P36', 'Runs with enough rounds reach an equilibrium in which no agent gains by moving',
   """When a run reports convergence, no agent has a move (of any kind, not only those it examines) that raises its utility
   by more than its thresholds; with enough rounds the standard configuration does converge to about k pools.""",
   ['histories', 'configurations'], 'all runs that converge, all possible deviations of all agents',
   'A global statement about the dynamics; tests look at single steps.',
   [LK, LS], [('search for moves', LK), ('convergence', LS)],
   """Convergence and optimality depend on runtime stakes, costs and the order of play; no static argument in reach bounds
   the dynamics. What is decided statically is each step of the rule: the search (P12), the choice (P11) and the
   convergence test (P24).""")
na('P42', 'Accumulated rounding never makes pool stakes and delegations diverge noticeably',
   """After any number of moves, each pool's stake differs from pledge plus recorded delegations by less than the smallest
   stake unit times the number of moves.""",
   ['histories'], 'all sequences of moves of any length',
   'Rounding accumulates over thousands of moves.',
   [LP, LK], [('recording delegations', LP)],
   """The analysis treats numbers as reals (see P17 for the exact statement); a bound on accumulated floating point error
   over unbounded histories needs numerical ranges that the source does not fix.""")
na('P43', 'Concurrent processes never share a sequence number or mix up table rows',
   """Runs started at the same time in separate processes take different sequence numbers, and rows and headers of shared
   tables are never mixed up.""",
   ['schedules'], 'all interleavings of concurrently started processes',
   'Needs exact interleavings of processes.',
   [LH, 'custom_batchrunner.py'], [('sequence file', LH), ('tables', LH)],
   """Not claimed: the code takes no lock around reading and writing the sequence file, and the program does not promise
   concurrent starts; whether two processes really collide is a matter of timing that source analysis cannot settle
   either way.""")
na('P44', 'Optimisation results for the minimum aggregate pledge are optimal',
   """The reported minimum aggregate pledge is the smallest total pledge with which a majority of pools can be controlled
   under the formulated constraints.""",
   ['inputs'], 'all sets of pools',
   'The result comes from an external optimiser.',
   [LM], [('optimisation', LM)],
   """The value is computed by an external mixed integer solver at run time; static analysis of this repository cannot
   establish what the solver returns.""")
