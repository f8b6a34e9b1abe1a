""" Writes known-findings.txt from the fix commits in /repo. """
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {  # words of the commit title -> (properties, what failed)
 'saving a distribution no longer changes': ('C13', "after saving, dimensions held as None in memory had become the string 'None'"),
 'a save that cannot reach the disk': ('C12', 'a save to a full or failing disk was acknowledged or destroyed the previous file'),
 'refuse to serialise two distributions': ('C11', 'two distributions of one name were saved as one, the other was lost without notice'),
 'SP.walk(sampler, stop)': ('C03', 'walking k samples drew k+1 and dropped the last'),
 'divide log probabilities in log space': ('C02', 'acceptance scores of log densities below -745 or above 709 were 0/0 or inf/inf, so chains never moved'),
 'Hastings scores weigh densities': ('C02', 'Hastings scores mixed linear and log densities and used the inverse proposal ratio'),
 'evaluate the reverse proposal': ('C02', 'the reverse transition of a forward/reverse pair was never evaluated'),
 'scalar steps bounce off the open end': ('C08', 'bounded scalar steps landed on the excluded end of half-open ranges'),
 'integer list deltas include': ('C08', 'integer steps of [d] never reached +d'),
 'truncate conditional normal samples': ('C06', 'conditional normal samples lay outside the limits of their variable'),
 'only wrap methods that a frozen scipy': ('C06', 'scipy multivariate distributions could not be used at all with the installed scipy'),
 'never sample a transition of zero': ('C10', 'a draw next to 1 selected the last state even where its transition probability is 0'),
 'indexed functions keep no call state': ('C14', 'f[0] and f[1] of one function taken before calling them both called the last index taken'),
 'conditionalising keeps the order': ('C07', 'the order of values conditionalised on several variables depended on PYTHONHASHSEED'),
 'the fallback of uncompiled expressions': ('C16', 'without a compiler arrays were evaluated over the grid of all combinations or failed'),
 'expressions evaluate without a working compiler': ('C16', 'expressions raised when the compiler was missing or failed'),
 'results do not depend on the string hash seed': ('C07', 'order of symbols and variables, hence results, depended on PYTHONHASHSEED'),
 'sympy samples follow': ('C07', 'samples of sympy distributions ignored the seeded global random state'),
 'interleaved samplers each keep': ('C06', 'interleaved Gibbs samplers advanced a shared sweep (also C01)'),
 'a step that raises is not counted': ('C04', 'a step that raised was counted'),
 'a spherical delta drawn at the origin': ('C08', 'a spherical step drawn at the origin turned the chain into NaN'),
 'multivariate normal densities take': ('C02', 'densities were evaluated with values in the order of the call rather than of the field'),
 'a Gibbs sweep follows the order of the field': ('C06', 'the sweep followed the order of the initial values'),
 'products of independent variables': ('C09', 'the probability of independent variables was returned in another scale than reported (also C02)'),
 'dictionary deltas of a field': ('C08', 'per-variable step sizes given as a dictionary to a field were ignored'),
 'deltas correlated by a matrix': ('C08', 'correlated steps of scalars became arrays'),
 'a delta of zero is not replaced': ('C08', 'a declared step of 0 was replaced by the default step'),
 'random samples of a discrete variable reach': ('C09', 'n random samples of a discrete variable came only from its first n values'),
 'truth values keep their probabilities': ('C09', 'truth values of log-scale variables were evaluated in linear scale'),
 'variables sampled by name follow': ('C09', 'variables sampled by name were sampled uniformly instead of by their distribution'),
 'expressions accept Numpy truth values': ('C09', 'evaluating the probability of a sampled truth value raised'),
 'what is serialised does not share': ('C13', 'a deserialised distribution shared its arrays with the original, so changing one changed the other'),
 'clipped to the exact limits': ('C06', 'conditional samples could fall one rounding error outside the limits of the variable'),
 'several transitions can be sampled': ('C10', 'sampling several transitions at once from a transition matrix raised'),
 'keeps its own copy of its set': ('C15', "declaring a variable rewrote the caller's list and shared it, so declaring another variable with it could change the first"),
 'a process can be called with an array': ('C09', 'calling a process with an array of values raised'),
}
EXTRA = os.path.join(HERE, 'tools', 'known.txt')
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '--grep=^fix:'], capture_output=True, text=True).stdout
lines = []
for line in log.splitlines():
  sha, title = line.split(' ', 1)
  hit = [v for k, v in FIXED.items() if k in title]
  if len(hit) != 1:
    raise SystemExit('no description: ' + line)
  lines.append('fixed: property={} {} {}'.format(hit[0][0], sha, hit[0][1]))
if os.path.exists(EXTRA):
  lines += open(EXTRA).read().splitlines()
open(os.path.join(HERE, 'known-findings.txt'), 'w').write('\n'.join(lines) + '\n')
