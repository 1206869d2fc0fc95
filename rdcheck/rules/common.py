EXPLAIN_F = ('Static value-flow analysis: the values named in the obligations are extracted from the source as gated value graphs (context-sensitive, '
             'all branches, loops as fixpoint nodes) and numbered modulo an equational theory of arithmetic, comparison, missing values and selection; '
             'each must have the same number as its reference definition. A difference is a violation only when it is located at constructs the theory '
             'interprets; anything else is counted as inconclusive.')
ASSUME_LIB = ['pandas, numpy, scipy, statsmodels, pvlib, arch and filterpy operations behave as documented and do not modify their arguments unless documented to',
              'the package is called as documented (argument types of the docstrings)']
