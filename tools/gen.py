#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'orocos_bfl/src/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, state=state or [], na=na))

SEQ = 'exhaustive enumeration of operation histories on the real code against a reference model'
RNGT = 'exhaustive enumeration of the random source\'s answers (interposed) on the real code'

prop('C01', 'Discrete pdf stays a normalised distribution after every history',
 'After any sequence of constructing, copying, assigning, setting one probability or setting all probabilities, a discrete pdf over n states reports n non-negative probabilities that sum to one and equal the ones the sequence defines (setting one state to p keeps the ratios of the others; setting all normalises the given values). A list of values that cannot be normalised is refused with a false status and changes nothing; the caller\'s list is never modified. The most probable state is one of maximal probability, copies are independent, and drawing uses the current probabilities.',
 ['histories', 'inputs'], 'all operation sequences up to depth 3-5 over n=1..4 states, every single-state change for 21 sizes up to 257, all periodic words of length <=3 for 60 steps',
 'tests set one or two hand-picked vectors once; the guarantee is over all histories, sizes and magnitudes, including states at probability exactly 0 and 1',
 ['pdf/discretepdf.cpp', 'pdf/discretepdf.h', 'pdf/pdf.h', 'bfl_constants.h'],
 [('DiscretePdf::ProbabilitySet', 'pdf/discretepdf.cpp'), ('DiscretePdf::ProbabilitiesSet / NormalizeProbs', 'pdf/discretepdf.cpp'), ('DiscretePdf::MostProbableStateGet', 'pdf/discretepdf.cpp')],
 ['DiscretePdf::ProbabilityGet', 'DiscretePdf::ProbabilitiesGet', 'DiscretePdf::MostProbableStateGet'], SEQ,
 'every history within the bounds is executed; floating point compared to 1e-9')

prop('C02', 'Discrete sampling: valid states in proportion, for every random answer',
 'Drawing from a discrete pdf, or from the row of a discrete conditional pdf selected by its current arguments, returns for every possible answer of the uniform random source a state of non-zero probability, and over all answers each state is drawn exactly in proportion to its current probability. Drawing a list with the default or the ordered-uniform (Ripley) method yields exactly the requested number of samples, distributed as independent draws, whatever the size of the caller\'s list beforehand. This holds after every history of probability changes and for copies.',
 ['inputs', 'histories'], 'all weight vectors that are compositions of 8 (10) over 1..4 (5) states, all equally spaced answers plus 0, the largest answer and all interval boundaries; lists of 1..3 over all answer tuples of a grid; lists up to 1000 over equal answers',
 'tests draw a few samples from an unscripted generator; boundary answers such as exactly 0 occur once in 2^32 draws and proportions are never checked',
 ['pdf/discretepdf.cpp', 'pdf/discreteconditionalpdf.cpp', 'pdf/pdf.h', 'wrappers/rng/rng.h'],
 [('cumulative probability search in SampleFrom', 'pdf/discretepdf.cpp'), ('ordered uniform draws (RIPLEY)', 'pdf/discretepdf.cpp'), ('row normalisation and search', 'pdf/discreteconditionalpdf.cpp')],
 ['DiscretePdf::SampleFrom', 'DiscreteConditionalPdf::SampleFrom'], RNGT,
 'random source replaced by enumerated answers through ELF interposition; frequencies exact for single draws, within grid resolution for ordered-uniform lists')

prop('C03', 'Discrete conditional tables: every cell independent and addressable',
 'For every number of states and every number and size of conditional arguments, a value stored for one combination of state and argument values is what is reported for exactly that combination, and storing it changes no other combination. Copies and assigned tables hold the same values and arguments and are independent of the original; drawing and reading change nothing.',
 ['configurations', 'histories'], 'all shapes with 1..5 states, 1..4 arguments of 1..4 values, four fill orders, three addressing styles; all write histories of depth 2-3 on six shapes interleaved with copy/assign/draw; six large shapes',
 'tests use one or two fixed shapes; addressing errors show only for particular asymmetric shapes or after copying',
 ['pdf/discreteconditionalpdf.cpp', 'pdf/discreteconditionalpdf.h', 'pdf/conditionalpdf.h'],
 [('IndexGet', 'pdf/discreteconditionalpdf.cpp'), ('ConditionalArgumentSet / ConditionalArgumentsSet', 'pdf/conditionalpdf.h')],
 ['DiscreteConditionalPdf::ProbabilityGet', 'ConditionalPdf::ConditionalArgumentGet'], SEQ, 'exact equality of stored values')

prop('C04', 'Histogram filter is the exact discrete Bayes recursion for every history',
 'For every prior, every sequence of prediction updates (with or without input), measurement updates (with or without sensor parameter) and combined updates, with models switched freely between updates, the posterior of the histogram filter equals exact Bayes prediction and normalised multiplication by the likelihood, for discrete and continuous measurements and likelihoods of any magnitude. An update whose likelihood is zero in every state of non-zero probability reports failure and leaves the posterior as it was. The prior object is never modified, filters sharing models do not influence each other, and after a reset the filter behaves as a new one started from the given prior.',
 ['histories', 'inputs', 'configurations'], 'all update sequences of depth 2-6 over an alphabet of about 25 updates, 1..4 states (up to 64 for depth 1), three priors, periodic words to 80 steps, two interleaved filters, resets between 1..3 states',
 'the one existing test runs a single fixed scenario; a wrong index or stale cache shows only for particular model switches, inputs or zero probabilities',
 ['filter/histogramfilter.cpp', 'filter/histogramfilter.h', 'filter/filter.cpp', 'model/discretesystemmodel.cpp', 'model/systemmodel.cpp', 'model/measurementmodel.cpp'],
 [('HistogramFilter::SysUpdate / MeasUpdate', 'filter/histogramfilter.cpp'), ('Filter::Update overloads', 'filter/filter.cpp')],
 ['HistogramFilter::PostGet', 'Filter::Update status'], SEQ, 'compared with an independent discrete Bayes recursion to 1e-9')

prop('C05', 'Sample-based pdf: normalised weights and matching moments, always',
 'After any history of setting or updating weighted or unweighted sample lists, changing the number of samples, copying and assigning, a sample-based pdf holds exactly the given values in order, with non-negative weights proportional to the given ones that sum to one (equal weights for unweighted lists), and cumulative weights running from 0 to 1. Its expected value and covariance are the weighted mean and weighted second central moment of exactly those samples (integer samples: the nearest integer and the second moment about it), queries change nothing and copies are independent. A list whose weights sum to zero is refused with a false status and leaves the pdf unchanged.',
 ['histories', 'inputs'], 'all histories of depth 2-4 over lists of 1..4 samples of five weight patterns (duplicates, zeros, tiny, huge, all zero), vector samples of dimension 1,2,3,5 and three scalar sample types; sizes up to 1000; two interleaved instances',
 'tests set one fixed list; shared iterators, stale cumulative weights or unnormalised weights need particular histories',
 ['pdf/mcpdf.h', 'pdf/mcpdf.cpp', 'sample/weightedsample.h', 'sample/sample.h', 'sample/sample.cpp'],
 [('NormalizeWeights / CumPDFUpdate', 'pdf/mcpdf.h'), ('ExpectedValueGet / CovarianceGet', 'pdf/mcpdf.cpp')],
 ['MCPdf::ListOfSamplesGet', 'MCPdf::SampleGet', 'MCPdf::CumulativePDFGet', 'MCPdf::ExpectedValueGet', 'MCPdf::CovarianceGet'], SEQ, 'moments compared to 1e-8 relative')

prop('C06', 'Sample-based pdf sampling: proportional to weight for every random answer',
 'Drawing from a sample-based pdf returns, for every answer of the uniform random source, the value of one of its samples of non-zero weight, and over all answers each sample exactly in proportion to its current weight. Drawing a list with the default or the ordered-uniform (Ripley) method yields exactly the requested number of values distributed as independent draws. This holds for every sample type, for copies, and after every history of list changes.',
 ['inputs', 'histories'], 'as C02 over vector, integer, unsigned and real samples, including all weight compositions, extreme answers, all answer tuples for lists of 1..3, lists up to 1000, up to 1000 samples',
 'resampling correctness of every particle filter rests on it and no test inspects frequencies or boundary answers',
 ['pdf/mcpdf.h', 'pdf/pdf.h'], [('cumulative weight search in SampleFrom', 'pdf/mcpdf.h'), ('ordered uniform draws (RIPLEY)', 'pdf/mcpdf.h')],
 ['MCPdf::SampleFrom'], RNGT, 'as C02')

exec(open(os.path.join(V, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props2.py')) else None

checks = json.load(open(os.path.join(V, 'checks.json')))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        n = p['statement'].replace('e.g.', '').count('. ') + 1
        assert n <= 3, (p['id'], n)
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=[S + x for x in p['files']], mechanism=[dict(name=a, where=S + b) for a, b in p['mech']], state=p['state'], observe_at=p['observe'], hook_needed=None))) + '\n')
man = dict(version=1, setup_cmd='python3 tools/setup.py',
    checks=[dict(property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'], thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
                 evidence_file='evidence/%s.json' % p['id'], technique='model checking: ' + p['technique'], level='model_checking', level_note=p['note'] + '; bounds in DESIGN.md; both matrix back ends, address/UB sanitizers on')
            for p in P if p['id'] in checks],
    not_applicable=[dict(property=p['id'], reason=p['na'] or 'check not built yet') for p in P if p['id'] not in checks],
    notes='No hooks in /repo: the random source is replaced by ELF interposition from the harness executable.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(man['checks']), 'claimed')
