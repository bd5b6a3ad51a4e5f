PN = 'every obligation generated from the current text of the functions is discharged for all inputs; assumes the trusted library contracts and real arithmetic; '
BN = 'bounded: executable contracts judged on seeded inputs of the real code against independent oracles; no proof'
for i, t in (('C01', 'composition of arbitrary models (abstract f_model, initialiser, bounds, validator)'), ('C02', 'every predefined formula, additive and multiplicative'),
             ('C04', 'cached against uncached evaluation of every caching model and of compositions'), ('C05', 'fixing and simplifying arbitrary models'),
             ('C06', 'dummy, calendar and date-list models over arbitrary date axes'), ('C07', 'formula, refusal, monotonicity and best key over arbitrary score tables')):
    p(i, 'proof', PN + t, 'units of contracts/%s.py: %s. A bounded run on the real code cross-checks the trusted library contracts.' % (i.lower(), t))
for i in ('C03', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23'):
    p(i, 'exploration', BN, 'bounded stand-in runtime/%s.py' % i.lower())
