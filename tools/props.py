"""writes properties.jsonl and MANIFEST.json (one place for ids, texts and levels)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ['src/elo.rs', 'src/fifa.rs', 'src/egf.rs', 'src/ingo.rs', 'src/dwz.rs', 'src/uscf.rs', 'src/glicko.rs', 'src/glicko2.rs',
       'src/glicko_boost.rs', 'src/sticko.rs', 'src/weng_lin.rs', 'src/trueskill/mod.rs']
TS = ['src/trueskill/mod.rs', 'src/trueskill/math.rs', 'src/trueskill/erf.rs', 'src/trueskill/gaussian.rs', 'src/trueskill/factor_graph.rs', 'src/trueskill/schedule.rs', 'src/trueskill/matrix.rs', 'src/trueskill/weights.rs']
GL = ['src/glicko.rs', 'src/glicko2.rs', 'src/glicko_boost.rs', 'src/sticko.rs']
P = []
def p(id, title, statement, over, text, why, files, mech, status='claim', reason=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, status=status, reason=reason, note=note))
IN = ['inputs', 'configurations']

p('C01', 'Expected scores are probabilities',
  'For every pair of players or teams and every configuration, the expected scores returned by a rating system lie between 0 and 1 and sum to 1. For matches with many teams the vector has one entry per team, all entries lie in [0,1] and they sum to 1.',
  IN, 'all ratings, uncertainties, counters and configurations in the documented ranges, all team sizes',
  'The tests compare a few dozen concrete expectations with stored numbers; a clamp, a wrong denominator or a wrong sum shows only for other inputs.',
  ALL, [('logistic or normal-cdf expectation and its complement', 'expected_score* in every module')])
p('C02', 'Period expectations agree with head-to-head expectations',
  'The expectations computed for a list of opponents contain exactly one value per opponent, in order, and each equals the first expectation of the head-to-head computation against that opponent, seen from the same colour where colours exist.',
  IN, 'all players and opponent lists of every length',
  'The tests use lists of two to four opponents; position and colour mistakes need other lists.',
  ALL, [('per-opponent mapping', 'expected_score_rating_period in every module')])
p('C03', 'A better result never yields a lower rating',
  'With the players, teams and configuration fixed, a win gives the first side at least the rating a draw gives, and a draw at least what a loss gives, and the reverse for the second side. Winning never lowers and losing never raises the rating in the systems whose update is driven by the surprise of the result.',
  IN, 'all players, teams and configurations',
  'Monotonicity relates three runs on the same input over the whole input space; tests look at single runs.',
  ALL, [('outcome to score mapping and non-negative step size', 'update functions in every module')])
p('C04', 'Elo conserves points and bounds every step',
  'An Elo update leaves the sum of both ratings unchanged and moves no rating by more than the k-factor. A FIFA update moves no rating by more than the importance of the match.',
  IN, 'all players, results and configurations', 'A conservation law over all inputs; the tests check a handful of stored results.',
  ['src/elo.rs', 'src/fifa.rs'], [('symmetric update', 'elo'), ('importance times surprise', 'fifa')])
p('C05', 'Swapping perspectives gives the same result',
  'Rating a match from the other side (players or teams exchanged, result mirrored, side advantage mirrored) gives exactly the same new values for each player. The same holds for expected scores and match quality.',
  IN, 'all players, teams, results and configurations', 'Relates two runs over the whole input space.',
  ALL, [('handling of player two / team two', 'update functions in every module')])
p('C06', 'Head-to-head updates follow the published formulas',
  'For every input the new rating (and deviation) of both players equals the published formula of the rating system: Elo, FIFA, EGF, Ingo, DWZ, USCF, Glicko, Glicko-Boost and Sticko, and for Glicko-2 the published update given the new volatility.',
  IN, 'all players, results and configurations, including every rating, age and game-count bracket',
  'The brackets and thresholds multiply into hundreds of cases; tests sample a few.',
  ALL[:10], [('update formula', 'elo, fifa, egf, ingo, dwz, uscf, glicko, glicko2, glicko_boost, sticko')])
p('C07', 'Rating-period updates follow the published formulas',
  'For a rating period with any number of results the new values equal the published batch formula (or, for sequential systems, the one-match formula applied result by result) evaluated on exactly those results.',
  ['inputs', 'configurations', 'histories'], 'all players, configurations and result lists of every length',
  'Lists of arbitrary length; the tests use up to four results.',
  ALL, [('sums over results', '*_rating_period in every module')])
p('C08', 'Rating-period identities',
  'A period without results leaves the rating unchanged (only the uncertainty may grow, exactly as in the explicit decay), and a period with one result gives the same as the head-to-head update. Sequential systems give the same whether a list is rated at once or split anywhere; batch systems do not depend on the order of the results.',
  ['inputs', 'configurations', 'histories'], 'all players, configurations, result lists of every length and all orders',
  'Needs pairs of runs on permuted or split histories of any length.',
  ALL, [('empty-period case and accumulation', '*_rating_period in every module')])
p('C09', 'Laws of rating deviations and uncertainties',
  'Uncertainty stays positive, playing never makes it larger than the value it had after the inactivity increase, and inactivity never makes it smaller; systems with a documented ceiling of 350 never exceed it after an update. The Weng-Lin uncertainty never falls below the configured tolerance share of the old one.',
  IN, 'all players, results, lists and configurations', 'Inequalities over the whole input space.',
  GL + ['src/weng_lin.rs', 'src/trueskill/mod.rs'], [('deviation update and decay', 'decay_deviation, new_deviation, new_uncertainty')])
p('C10', 'Rating floors and special match rules',
  'USCF ratings never leave an update below 100 and EGF ratings never below -900. In FIFA knockout matches a loser loses nothing, a match decided on penalties counts three quarters for the winner and a draw for the loser.',
  ['inputs', 'configurations', 'histories'], 'all players, results, lists and configurations',
  'Floors must hold along every history, the tests touch them once.',
  ['src/uscf.rs', 'src/egf.rs', 'src/fifa.rs'], [('floor', 'uscf*, egf*'), ('knockout and penalty rules', 'fifa*')])
p('C11', 'Team results keep shape and order',
  'Rating teams returns as many teams as given, each with as many players as given, in the order given, also when the finishing ranks are not sorted. If any team is empty, or there is no opponent, all players come back unchanged.',
  IN, 'all numbers of teams and team sizes, all rank assignments', 'Shapes and rank permutations are unbounded; tests use a few.',
  ['src/weng_lin.rs'] + TS, [('sorting and unsorting of teams', 'trueskill_multi_team'), ('per-team loops', 'weng_lin_multi_team, *_two_teams')])
p('C12', 'Team ratings are consistent with each other',
  'Teams of one player are rated like single players, two teams are rated the same by the two-team and the many-team functions (for TrueSkill with a dynamics factor of zero, because its many-team function adds the dynamics before the match), and only the order of the ranks matters, not their values. Listing the teams (with distinct ranks) or the players of a team in another order permutes the results and changes nothing else.',
  IN, 'all team compositions, ranks and configurations', 'Relates different entry points over the whole input space.',
  ['src/weng_lin.rs'] + TS, [('shared formulas of one-player, two-team and many-team functions', 'weng_lin*, trueskill*')])
p('C13', 'Player weights are validated and respected',
  'Weights with a wrong number of teams, a wrong number of players or a negative entry are refused with the error naming the first offending place, and valid weights are accepted. Giving no weights is the same as giving every player weight one, and a player with weight zero keeps the rating and has no influence on the others.',
  IN, 'all weight shapes and values', 'Shapes and positions of the offending entry are unbounded.',
  ['src/trueskill/weights.rs', 'src/trueskill/mod.rs'], [('validation', 'get_weights'), ('weighted sums', 'SumFactor')])
p('C14', 'No panics on valid input',
  'No public function panics, overflows an integer or indexes out of bounds for any valid input, including empty lists, empty teams, single teams and extreme counters.',
  ['inputs', 'configurations'], 'all valid inputs including empty and unusual shapes', 'Absence of panics is universal.',
  ALL, [('length checks and saturating arithmetic', 'every public function')])
p('C15', 'Results are finite numbers',
  'For finite inputs in the documented ranges every rating, deviation, volatility, expectation and quality returned is a finite number, never NaN or infinite.',
  ['inputs', 'configurations'], 'all inputs in the documented ranges', 'NaN appears only at extreme or degenerate inputs which the tests do not reach.',
  ALL, [('overflow-safe formulas', 'every public function')])
p('C16', 'Trait implementations agree with the functions',
  'Using a rating system through the one-match, rating-period, team or multi-team trait gives exactly the result of the corresponding function with the configuration it was created with.',
  IN, 'all inputs of the trait methods', 'The tests call the traits on a few inputs only; swapped arguments or a dropped configuration are input dependent.',
  ['src/lib.rs'] + ALL, [('trait impls', 'impl RatingSystem / RatingPeriodSystem / TeamRatingSystem / MultiTeamRatingSystem')])
p('C17', 'Conversions and constructors keep the values',
  'Constructing a rating from values or from another system keeps or maps the values exactly as documented, and conversions that are documented as inverse to each other return the original value. Ranks of multi-team outcomes and the chess points of an outcome are preserved as documented, and defaults have their documented values.',
  ['inputs'], 'all values', 'Conversion formulas are piecewise; tests check a few points.',
  ALL + ['src/lib.rs'], [('From and Rating impls', 'every module')])
p('C18', 'First DWZ rating',
  'A first DWZ rating is refused for fewer than five games and for all-won or all-lost records and given otherwise. When given, it is the average opponent rating plus the official table value of the rounded percentage score, compressed below 800, with index 1.',
  ['inputs', 'histories'], 'all result lists of every length', 'The table has 101 rows and lists are unbounded.',
  ['src/dwz.rs'], [('table lookup', 'get_first_dwz')])
p('C19', 'Neutral parameters reduce to the parent system',
  'Sticko with all extra parameters zero computes what Glicko computes. Glicko-Boost without side advantage and boost computes the Glicko rating, and a side advantage of zero makes colours irrelevant.',
  IN, 'all players, lists and remaining parameters', 'Relates two systems over the whole input space.',
  ['src/sticko.rs', 'src/glicko_boost.rs', 'src/glicko.rs'], [('extra terms vanish', 'sticko*, glicko_boost*')])
p('C20', 'Match quality, rank and confidence interval',
  'Match quality lies between 0 and 1, is symmetric, never grows with the rating difference and equals the published formula, for any number of teams and weights; the lists and two-team forms agree with the one-on-one form. The conservative rank is the rating minus three uncertainties, and confidence intervals are centred on the rating with half-width 1.96 deviations.',
  IN, 'all players, teams and configurations', 'Inequalities and identities over the whole input space.',
  TS + GL, [('quality formula', 'match_quality*'), ('intervals', 'confidence_interval, get_rank')])
p('C21', 'Bookkeeping of games, index and age',
  'Every rated game adds one to the USCF game counter, every DWZ evaluation adds one to the index and keeps the age, and the Ingo age is kept.',
  ['inputs', 'histories'], 'all players and lists of every length', 'Counters must be right along every history.',
  ['src/uscf.rs', 'src/dwz.rs', 'src/ingo.rs'], [('counters', 'uscf*, dwz*, ingo*')])
p('C22', 'Glicko-2 volatility',
  'The new volatility is positive, does not change the symmetry of the update, and brackets a zero of the published volatility equation within the configured tolerance. Inactivity keeps the volatility.',
  IN, 'all players, lists and configurations', 'An iterative root search with data dependent branches; the tests follow two traces.',
  ['src/glicko2.rs'], [('root search', 'new_volatility')])
p('C23', 'TrueSkill updates follow the published formulas',
  'Head-to-head, period and two-team TrueSkill updates equal the published truncated-Gaussian formulas, and for two weighted teams the multi-team factor graph gives the same closed form with the dynamics variance added to every player before the match. For three or more teams the result is that of the published message passing along the teams in order of their ranks (at most ten rounds, until nothing changes by more than 1e-4), ties counting as draws between neighbours. The draw margin follows the published formula for the number of players.',
  IN, 'all players, teams, results and configurations', 'Formulas over the whole input space; tests compare a few stored numbers.',
  TS, [('v and w functions', 'math.rs'), ('updates', 'trueskill*')])
p('C24', 'Weng-Lin updates follow the published formulas',
  'Head-to-head, period, two-team and multi-team Weng-Lin updates equal the published Bradley-Terry full-pair formulas for any number of teams and players.',
  IN, 'all players, teams, ranks and configurations', 'Any number of teams and players; tests use up to four.',
  ['src/weng_lin.rs'], [('updates', 'weng_lin*')])

def main():
    import re
    have = set()
    d = os.path.join(ROOT, 'harness/src/contracts')
    for f in os.listdir(d):
        have |= {m.upper() for m in re.findall(r'pub fn h_(c\d\d)_', open(os.path.join(d, f)).read())}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['id']
            f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'],
                    quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
                    anchors=dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']]))) + '\n')
    try:
        base = json.load(open(os.path.join(ROOT, 'baseline.json')))
    except OSError:
        base = {}
    checks, na = [], []
    for x in P:
        if x['status'] != 'claim' or x['id'] not in have:
            na.append(dict(property=x['id'], reason=x['reason'] or 'contracts for this property are not written yet'))
            continue
        mine = {n: b for n, b in base.items() if n.startswith('h_%s_' % x['id'].lower())}
        pr = sum(b['level'] == 'proved' for b in mine.values())
        bo = sorted(n for n, b in mine.items() if b['level'] == 'bounded')
        no = sorted(n for n, b in mine.items() if b['level'] not in ('proved', 'bounded'))
        note = '%d of %d contracts proved for all inputs and lengths' % (pr, len(mine))
        if bo:
            note += '; bounded stand-in (stated list lengths/team shapes): ' + ', '.join(bo)
        if no:
            note += '; not discharged, only monitored natively and not counted as proved: ' + ', '.join(no)
        checks.append(dict(property=x['id'], quick_cmd='python3-vt -m vc.check %s quick' % x['id'],
                           thorough_cmd='python3-vt -m vc.check %s thorough' % x['id'],
                           technique='contract-based deductive verification of the MIR of /repo (symbolic execution with loop summaries, normal form, interval analysis, z3)',
                           level='proof' if pr else 'other', level_note=note))
    m = dict(version=1, setup_cmd='python3-vt -m vc.build', checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    out = [open(os.path.join(ROOT, 'tools/design_head.md')).read()]
    for x in P:
        mine = sorted((n, b['level']) for n, b in base.items() if n.startswith('h_%s_' % x['id'].lower()))
        out.append('### %s %s\n%s\n' % (x['id'], x['title'], HOW[x['id']]))
        for lv, t in (('proved', 'Proved for all inputs and lengths'), ('bounded', 'Bounded stand-in (list lengths / team sizes fixed)'), ('none', 'Not discharged; monitored natively only, not counted as proved')):
            l = [n + (' (lengths %s)' % ','.join(map(str, base[n]['bounds'])) if lv == 'bounded' else '') for n, v in mine if v == lv]
            if l:
                out.append('%s (%d): %s.\n' % (t, len(l), ', '.join('`%s`' % n for n in l)))
    out.append(open(os.path.join(ROOT, 'tools/design_tail.md')).read())
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))


HOW = {
 'C01': 'Postconditions 0 ≤ e ≤ 1 and Σe = 1 on every `expected_score*`, for symbolic players, teams of symbolic size and three teams (any number where the sum summary allows). Oracle: the inequality itself. Discharged by sign/interval reasoning on the logistic or erfc term.',
 'C02': 'The returned list has the length of the opponents and its i-th element (i symbolic) equals the head-to-head call on the i-th opponent. Oracle: the crate\'s own one-match function, itself under C01/C06/C23/C24.',
 'C03': 'Three calls with the same symbolic players and the three outcomes; ordered postconditions on the new ratings of both sides, and sign of the change for win and loss. Oracle: the inequality. Glicko-2 draws and TrueSkill draws depend on transcendental monotonicity outside the prover: native monitor.',
 'C04': 'Sum of both Elo ratings preserved and |Δ| ≤ k as equalities/inequalities over reals; FIFA |Δ| ≤ importance.',
 'C05': 'Two calls with exchanged arguments, mirrored outcome and mirrored side advantage give identical values (normal form equality).',
 'C06': 'Postcondition: equality with an independently written spec function of the published formula, with every bracket (EGF con/bonus, DWZ development coefficient, USCF K and floors, Ingo age factor) as case split.',
 'C07': 'Batch systems: the spec is a sum over the list; the loop in the crate and the loop in the spec are summarised to the same indexed sums. Sequential systems: both loops are folds with the same step, by induction.',
 'C08': 'Empty list, one-element list, fold of one-match updates (sequential systems), first two results exchanged and first result moved to the end (generators of all permutations) for batch systems.',
 'C09': 'Inequalities on the new deviation; Glicko family through 1/(1/x+y) ≤ x, Weng-Lin through max(1−δ, κ). TrueSkill needs w ∈ [0,1] for the erfc approximation: native monitor.',
 'C10': 'Floors as postconditions after one match and after a list of any length; FIFA knockout and penalty rules against a case table.',
 'C11': 'Lengths of all returned lists equal those given (also for a symbolic number of teams for Weng-Lin), unchanged values when a team is empty or alone. The TrueSkill factor graph is executed for small shapes only.',
 'C12': 'Two different entry points on the same symbolic input, or the same one on permuted teams/players, give equal values.',
 'C13': 'Spec: the first offending place in reading order; compared with the error value of both functions that take weights. Semantics of weight one and zero by comparing two runs.',
 'C14': 'Every panic edge in the MIR (overflow checks are enabled in the extraction) is an obligation; the contracts call every public function on symbolic input including empty lists.',
 'C15': 'IEEE-754 outward-rounded interval analysis of the result terms; list functions need an interval invariant.',
 'C16': 'Trait call and function call on the same symbolic input, equality of all fields, config included.',
 'C17': 'Constructors, `From`, `Rating` trait, defaults; inverse conversions composed.',
 'C18': 'Refusal conditions and value against a spec with the official table, symbolic percentage.',
 'C19': 'Sticko/Glicko-Boost with neutral parameters against Glicko on the same input.',
 'C20': 'Formula equality, range, symmetry, monotonicity in the rating difference; two- and three-team forms of the matrix computation.',
 'C21': 'Counters after one match and after n matches of symbolic n.',
 'C22': 'The volatility search is a `while` loop whose exit condition and invariant are instantiated; symmetry and positivity are obligations, the bracket property is checked against the published function.',
 'C23': 'Spec functions for v, w, draw margin, cdf (published approximation) and the update; equality per outcome. Many-team graph for two weighted teams.',
 'C24': 'Spec functions for ω, δ summed over the other teams, any number of teams and players.',
}
main()
