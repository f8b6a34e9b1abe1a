""" Writes properties.jsonl and MANIFEST.json (kept in step from one place). """
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
  return {'id': id, 'title': title, 'statement': statement,
          'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
          'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                      'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                      'observe_at': list(observe), 'hook_needed': hook}}

SP, SD, RF, RV, VAR, FIELD = ['probayes/' + f for f in ('sp.py', 'sd.py', 'rf.py', 'rv.py', 'variable.py', 'field.py')]
UTIL, EXPR, EXPN, PDU, PD = ['probayes/' + f for f in ('sp_utils.py', 'expr.py', 'expression.py', 'pd_utils.py', 'pd.py')]

PROPS = [
P('C01', 'Samplers advanced together do not influence one another',
  'Samplers of one stochastic process (or of different ones), advanced in any order and mixed with the creation, closing and '
  'summarising of other samplers and with evaluations of the process, each yield exactly the samples they would yield on their '
  'own from the same randomness. Their step counts and last samples are their own too.',
  ['schedules', 'configurations'],
  'every interleaving of the steps of any number of samplers of Metropolis, Hastings, Gibbs, Markov, rejection and plain processes',
  'The examples drive one sampler at a time; no test advances two samplers of one process alternately.',
  [SP, RF, SD],
  [('SP.next/_next keep last sample, count and Gibbs phase per sampler', 'probayes/sp.py'), ('SP.sampler registers a sampler', 'probayes/sp.py')],
  [('last', 'last sample of every sampler', 'probayes/sp.py'), ('counter', 'steps of every sampler', 'probayes/sp.py'),
   ('phase', 'position in the Gibbs sweep of every sampler', 'probayes/sp.py')],
  ['SP.sampler()/next()', 'SP.get_counter/get_last']),
P('C02', 'Every Metropolis(-Hastings) step follows the declared densities',
  'At every step of a chain the proposal starts at the current state, the reported target and transition probabilities are the '
  'declared ones at the reported values, and the acceptance score is the Metropolis-Hastings ratio computed from them in their '
  'own scales (including where linear probabilities would underflow or overflow). The proposal is accepted exactly when the score '
  'reaches the threshold drawn for the step, and the state after the step is the proposal if accepted and the current state otherwise.',
  ['histories', 'inputs', 'configurations'],
  'every chain of every length, target, scale (linear/log), symmetric or forward/reverse transition, step rule, data set and random draw, extreme draws included',
  'The examples run one fixed chain each and assert nothing about single steps; score, threshold and bookkeeping are never compared with the declared densities.',
  [UTIL, SP, SD, RF, PDU],
  [('metropolis_scores/hastings_scores, thresholds, metropolis_update', 'probayes/sp_utils.py'), ('SP._next builds opqr and stuv', 'probayes/sp.py'),
   ('SD.sample evaluates p, q and r', 'probayes/sd.py'), ('div_prob', 'probayes/pscales.py')],
  [('last', 'current state of the chain', 'probayes/sp.py')], ['fields o,p,q,r,s,t,u,v of each sample']),
P('C03', 'A sampler yields exactly the samples asked for, however they are drawn',
  'A sampler with a stop yields that many samples and then ends; walking, iterating and stepping one sampler in any mixture yields '
  'one uninterrupted sequence in which no sample is lost, repeated or drawn twice. Counts report the number of steps taken since the '
  'start or last reset, and a reset starts the sampler over without touching others.',
  ['histories', 'schedules'],
  'every history of steps, partial walks, drains, resets, closings and creations over every kind of sampler',
  'The examples draw all samples in a single loop; splitting a run into windows, resetting and stopping are untested.',
  [SP], [('SP.walk, SP.sampler, SP.next, SP.reset', 'probayes/sp.py')],
  [('counter', 'steps of every sampler', 'probayes/sp.py')], ['SP.walk()', 'iteration of SP.sampler()', 'SP.get_counter()']),
P('C04', 'A step that fails leaves every chain as it was',
  'When a step of a sampler fails (a target, transition, conditional, score, threshold or update function raises, or the process is '
  'interrupted) it is not counted and neither that sampler nor any other changes state. Steps made afterwards yield what they would '
  'have yielded had the failed step never been tried (an interrupted step may alternatively have taken full effect).',
  ['fault_sequences', 'schedules', 'histories'],
  'every user callback of every step at which an exception can be raised, every library line at which an interrupt can strike, and every history around them',
  'No test makes a step fail.',
  [SP, SD, RF], [('SP.next commits count, phase and last only after the step', 'probayes/sp.py')],
  [('last/counter/phase', 'state of each sampler', 'probayes/sp.py')], ['SP.next()', 'SP.get_counter()']),
P('C05', 'Summarising samples conserves them',
  'Summarising any collection of samples of a process keeps every retained sample exactly once, in order, with its values and its '
  'probability, and leaves the samples themselves unchanged. The values of different variables of one sample stay together.',
  ['histories', 'configurations'],
  'every collection (of any length, window or mixture of samplers) of samples of every kind of process',
  'Examples summarise one run and plot it; nothing compares summaries with the samples.',
  [SP, PDU], [('SP.__call__ summarises samples', 'probayes/sp.py'), ('summate', 'probayes/pd_utils.py')], (), ['process called on samples']),
P('C06', 'Gibbs sweeps update every variable in turn, each given the current others',
  'Each Gibbs step updates the next variables of the sweep of its own sampler, in the order of the field, conditioned on the current '
  'values of the others, and leaves the rest untouched; every sweep visits each variable once, whatever other samplers, direct steps or '
  'failures happen in between. Values sampled from a conditional normal follow that conditional restricted to the limits of the variable.',
  ['schedules', 'fault_sequences', 'inputs'],
  'every interleaving of Gibbs samplers, failing conditionals and direct steps; every number of variables, variables per step, covariance, limits and random draw',
  'Two examples run one Gibbs sampler each; no test checks turns, conditioning, limits or distributions.',
  [RF, 'probayes/cond_cov.py', SP], [('RF.eval_tfun', 'probayes/rf.py'), ('CondCov.interp', 'probayes/cond_cov.py')],
  [('phase', 'position in the sweep', 'probayes/sp.py')], ['fields p and q of each sample', 'arguments of the conditional functions']),
P('C07', 'Seeding the random state makes results repeatable across processes',
  'A program that seeds the global random state of NumPy gets the same samples, chains, names, evaluations and summaries in every '
  'process it runs in, whatever the hash seed of the interpreter and whatever ran before the seeding.',
  ['schedules', 'configurations', 'histories'],
  'every hash seed, every seeded program over variables, fields, processes, expressions and distributions, and every earlier history of the process',
  'The suite runs under one fixed hash seed and compares no run with another.',
  [EXPR, PDU, 'probayes/dependence.py', 'probayes/sympy_prob.py', 'probayes/functional.py'],
  [('ordered rather than hashed iteration over symbols and keys', 'probayes/expr.py'), ('all draws come from numpy.random', 'probayes/vtypes.py')],
  (), ['returned values, names and orders']),
P('C08', 'Random-walk steps stay in the domain and have the declared size',
  'A step applied to values in the domain of a variable lands in the domain (off excluded ends) when stepping is bounded, and every '
  'increment that meets no end is one the declared rule permits: fixed, uniform within the declared size, of random sign, of declared '
  'Euclidean length over a field, or correlated by the declared matrix, with the declared probability. Integers stay integers and '
  'log-transformed variables step in the transformed scale.',
  ['inputs', 'histories', 'configurations'],
  'every domain, step rule, scale, place in the domain (at and next to the ends) and random draw (extreme ones included), over walks of any length',
  'Tests step from a few values; ends hit with small probability and extreme draws practically never occur.',
  [VAR, FIELD, RF, 'probayes/variable_utils.py'], [('Variable.eval_delta/apply_delta', 'probayes/variable.py'), ('Field.eval_delta/apply_delta', 'probayes/field.py')],
  (), ['Variable/Field eval_delta, apply_delta', 'step and samplers using them']),
P('C09', 'Random samples follow the declared distribution and stay in the support',
  'Random values requested from a variable, field or process, one or several at a time, by position or name, independently or jointly, '
  'number as many as requested, lie in the declared set or range and follow the declared distribution (a discrete uniform spread is as '
  'even as possible). The probability returned with them is the declared one at the returned values, and values given in the request '
  'are returned unchanged.',
  ['inputs', 'histories', 'configurations'],
  'every mixture of variables, form and size of request and random draw',
  'Tests sample a few variables and compare means loosely or not at all; extreme draws practically never occur.',
  [VAR, RV, FIELD, RF, 'probayes/vtypes.py', 'probayes/prob.py'],
  [('Variable.evaluate, RV.evaluate', 'probayes/rv.py'), ('uniform', 'probayes/vtypes.py'), ('inverse cumulative sampling', 'probayes/rv.py')],
  (), ['calling variables, fields and samplers with sample requests']),
P('C10', 'Markov transitions follow the declared conditional distribution',
  'Each transition of a chain starts at its current state and ends in a state drawn from the declared conditional distribution given '
  'it (transition matrix, density with cumulative and inverse functions, or step rule), so never in one the distribution excludes. '
  'The probability reported with a transition is the declared conditional probability of the step made.',
  ['histories', 'schedules', 'inputs'],
  'every transition matrix, density, step rule, interleaving of chains and random draw (extreme ones included)',
  'Examples run one chain each and only plot; boundary draws practically never occur.',
  [RV, RF, 'probayes/rv_utils.py', 'probayes/rf_utils.py'], [('matrix_cond_sample, lookup functions', 'probayes/rv_utils.py'), ('RV.step, RF.step', 'probayes/rv.py')],
  (), ['step and samplers of processes with transitions']),
P('C11', 'What was saved is what is read back',
  'Reading a file returns the distributions of the last acknowledged save to it: same variables in the same order, values, types, '
  'dimensions, probabilities, scale and auxiliary entries, whatever saves, overwrites and reads came before and however the operating '
  'system splits or interrupts its transfers. A save that cannot represent what it is given is refused rather than acknowledged.',
  ['histories', 'fault_sequences', 'inputs'],
  'every history of saves, overwrites, copies and reads over files, every distribution the library can make, every partial or interrupted transfer',
  'One test writes and reads one distribution once.',
  [PDU, PD], [('serialise/deserialise', 'probayes/pd_utils.py'), ('write_serialised/read_serialised', 'probayes/pd_utils.py')],
  [('file', 'HDF5 file', 'on disk')], ['write_dist/read_dist', 'write_serialised/read_serialised']),
P('C12', 'A failed or cut-short save loses neither the old file nor later saves',
  'When a save fails (disk full, I/O error, failing open, truncate or rename, torn write) or the process dies or is interrupted during '
  'it, the failure is reported, and the file afterwards reads as either the complete previous or the complete new content. Once the '
  'fault is gone saving and reading work again, and nothing else in the folder changes.',
  ['fault_sequences', 'crash_points', 'histories'],
  'every system call of a save at which an error, torn write or process death can strike, every library line at which an interrupt can strike, every file history before it',
  'No test makes a disk fail or a process die.',
  [PDU], [('write_serialised writes aside and renames', 'probayes/pd_utils.py')], [('file', 'HDF5 file', 'on disk')],
  ['folder contents after the fault', 'read_dist', 'exceptions of write_dist']),
P('C13', 'Saving, serialising and reading never alter a distribution in memory',
  'A distribution that was saved, serialised or copied, successfully or not, has the same variables, values, dimensions, probabilities '
  'and scale afterwards, and everything computed from it is unchanged. What is read from a file or serialised form is independent of the '
  'original: changing one does not change the other.',
  ['histories', 'fault_sequences'],
  'every history of saves, failed saves, serialisations and reads over every distribution the library can make',
  'The single save test never uses the distribution after saving it.',
  [PDU, PD], [('serialise copies its attributes', 'probayes/pd.py'), ('write_serialised', 'probayes/pd_utils.py')], (), ['distribution before and after']),
P('C14', 'Concurrent evaluation gives what sequential evaluation gives',
  'Callers in different threads that evaluate, sample or step the same functions, expressions, variables, fields, processes and '
  'distributions at once (each advancing a sampler of its own, made beforehand) get the results they would have got one after the other from the same randomness. '
  'An indexed or partial function kept by one caller stays what it was whatever others do, and a failure in one thread stays there.',
  ['schedules', 'fault_sequences'],
  'every interleaving of the threads at the level of single library lines, and every point at which a user function of one of them fails',
  'The suite is single threaded.',
  ['probayes/func.py', 'probayes/cf.py', EXPN, RV, RF, SD, SP, PD],
  [('evaluation keeps its working state in local variables', 'probayes/expression.py'), ('functions are bound by partials', 'probayes/func.py')],
  (), ['results of every call']),
P('C15', 'Evaluating leaves what is evaluated, and its inputs, unchanged',
  'Evaluating, sampling, stepping, marginalising, conditioning, multiplying or summarising, whether it succeeds, fails part way or is '
  'interrupted, changes neither the objects involved nor the arguments passed. Whatever is evaluated afterwards yields what it would '
  'have yielded on a freshly made object.',
  ['histories', 'fault_sequences'],
  'every history of evaluations over one object, every user function that can fail and every library line at which an interrupt can strike',
  'Tests evaluate each object once or twice and never after a failure.',
  [RV, RF, SD, PD, PDU, EXPN, 'probayes/distribution.py'],
  [('evaluation copies what it changes', 'probayes/field.py'), ('temporary settings are undone', 'probayes/sp.py')],
  (), ['results and arguments before and after']),
P('C16', 'Expressions evaluate whatever happens to the compiler',
  'A symbolic expression, and the variables and processes built on it, evaluates to the value of the expression at the given arguments '
  'when compilation of it is unavailable or fails at any stage (no compiler, failing or killed compiler, no space or permission for '
  'temporary files), just as when it succeeds. An evaluation never fails or differs for that reason.',
  ['fault_sequences', 'inputs', 'configurations'],
  'every stage of a compilation that can fail and every expression, scalar or array argument',
  'The suite runs where the compiler works.',
  [EXPR, EXPN, 'probayes/sympy_prob.py'], [('Expr.add_efun falls back to evaluation without compilation', 'probayes/expr.py')],
  (), ['values of expressions'], None),
P('C17', 'Probability scales convert consistently',
  'Converting probabilities between linear, log and scaled representations, multiplying and dividing them, gives the value of the '
  'represented probability whatever the representations of the operands.',
  ['inputs'], 'every pair of scales and every probability', 'Tests sample a few values.',
  ['probayes/pscales.py'], [('rescale, prod_rule, div_prob', 'probayes/pscales.py')]),
P('C18', 'Operations on distributions obey the rules of probability',
  'Marginalising, conditioning, multiplying, dividing, adding and taking quantiles or expectations of distributions yields the '
  'distribution the rules of probability prescribe, over the prescribed variables.',
  ['inputs', 'programs'], 'every distribution and sequence of operations', 'Tests apply each operation to one or two distributions.',
  [PD, PDU], [('PD methods, product, summate', 'probayes/pd.py')]),
P('C19', 'Argument mappings pass each value where it was declared to go',
  'A function declared with an ordering or difference mapping receives every named value at the declared position or keyword, and '
  'differences of named values where declared.',
  ['inputs', 'configurations'], 'every mapping and call', 'Tests use a few mappings.',
  [EXPN, 'probayes/func.py', 'probayes/functional.py'], [('Expression._call', 'probayes/expression.py')]),
P('C20', 'Ordered values of a variable cover its domain under its transform',
  'The ordered values of a variable cover its domain evenly in its transformed scale and its uniform density integrates to one over it.',
  ['inputs', 'configurations'], 'every domain and invertible transform', 'Tests use a few domains.',
  [VAR, 'probayes/vtypes.py'], [('Variable.evaluate', 'probayes/variable.py')]),
P('C21', 'Dependence graphs reflect the declared conditionals',
  'The roots, leaves and name of a dependence reflect exactly the declared conditional relations.',
  ['configurations'], 'every declaration', 'Tests build a few graphs.',
  ['probayes/dependence.py'], [('Dependence._refresh', 'probayes/dependence.py')]),
]

PURE = 'a pure function of its arguments: no schedule, clock, I/O, randomness or fault takes part in it, so there is nothing to simulate; '
NOT_APPLICABLE = {
 'C17': PURE + 'where scales decide a chain (scores, densities in log scale) they are checked within C02, C09 and C10',
 'C18': PURE + 'conservation of samples by summaries is checked within C05, and operations under failure and concurrency within C14 and C15',
 'C19': PURE + 'mappings are exercised within the simulated processes of C02, C10 and C14',
 'C20': PURE + 'ordered requests are checked within the request histories of C09',
 'C21': 'decided once, when the object is declared, by a pure function of the declaration; its dependence on the hash seed is checked within C07',
}

LEVEL = {}
TECH = {
 'C01': 'deterministic simulation: seeded interleavings of samplers, solo executions as reference',
 'C02': 'deterministic simulation: seeded chains with extreme draws, step-by-step reference model',
 'C03': 'deterministic simulation: seeded histories of draws, uninterrupted execution as reference',
 'C04': 'deterministic simulation with injected exceptions and interrupts, fault-free execution as reference',
 'C05': 'deterministic simulation: seeded windows over interleaved samplers, conservation check',
 'C06': 'deterministic simulation: interleaved Gibbs samplers with injected failures, reference model of the sweep',
 'C07': 'deterministic simulation: seeded programs replayed in processes of different hash seeds and histories',
 'C08': 'deterministic simulation: seeded walks with extreme draws, reference model of the step',
 'C09': 'deterministic simulation: seeded request histories with extreme draws, reference distribution',
 'C10': 'deterministic simulation: seeded transition histories with extreme draws, reference distribution',
 'C11': 'deterministic simulation of the disk interface: seeded file histories with partial transfers, reference store',
 'C12': 'deterministic simulation of the disk interface: seeded faults and process deaths at system calls, old-or-new reference',
 'C13': 'deterministic simulation of the disk interface: seeded save histories with faults, unchanged-object check',
 'C14': 'deterministic simulation of threads: seeded preemption at library lines, sequential execution as reference',
 'C15': 'deterministic simulation: seeded histories with injected exceptions and interrupts, fresh objects as reference',
 'C16': 'deterministic simulation of the compiler interface: seeded failures of every stage, exact reference values',
}
NOTE = ('Seeded search over simulated runs of the real library: no claim beyond the schedules, faults and inputs explored. '
        'Trusts Python, NumPy, SciPy, sympy, h5py and the reference models in dst/; see DESIGN.md for what is not explored.')

def main():
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
      f.write(json.dumps(p) + '\n')
  built = [p['id'] for p in PROPS if os.path.exists(os.path.join(HERE, 'dst', p['id'].lower() + '.py'))]
  na = [{'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'its check is not built yet')}
        for p in PROPS if p['id'] not in built]
  man = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh',
         'checks': [{'property': i, 'quick_cmd': 'bash /verif/run.sh {} quick'.format(i),
                     'thorough_cmd': 'bash /verif/run.sh {} thorough'.format(i),
                     'technique': TECH[i], 'level': 'exploration', 'level_note': NOTE} for i in built],
         'not_applicable': na,
         'notes': 'No hooks in /repo: every seam is owned from outside (NumPy bit generator, line tracing, LD_PRELOAD disk shim, '
                  'subprocess interface). Commits in /repo are fix: commits only, listed in known-findings.txt.'}
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')

main()
