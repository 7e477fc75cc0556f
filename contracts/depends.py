"""Units of other properties that prove the contracts a property relies on at calls; every check runs them too."""

NODES = ['PolynomialBasis.interpolationMatrix']
TABLEAU = ['ButcherTableau', 'butcherTableuForCollocationPoints']
MODEL = ['makeImplicit', 'Dae.createFunction', 'Dae.createFunction (any lists of names)']
STATES = ['CollocationScheme (states, times, inputs, continuity)']
EQUATIONS = ['CollocationScheme (collocation equations, parameters)']
LAYOUT = ['CasadiStructure.__init__', 'CasadiStructure.getCanonicalIndex', 'Structure.traverseCanonicalIndex', 'StructEntry.traverseCanonicalIndex']
POWER = ['payloadUnpack', 'canonical', 'StructEntry.traverseByPowerIndex', 'Structure.traverseByPowerIndex']
ACCESS = ['delegation', 'performExtraIndex', 'index dispatchers', 'GetterDispatcher.__call__', 'SetterDispatcher.__call__', 'correct_vector_indexing']

DEPENDS = {
    'C05': {'C01': NODES},
    'C06': {'C01': NODES, 'C02': ['PolynomialBasis.D'], 'C03': ['PolynomialBasis.poly', 'PolynomialBasis.compose'], 'C05': ['PiecewisePoly.__call__']},
    'C07': {'C01': NODES},
    'C08': {'C04': TABLEAU},
    'C09': {'C04': TABLEAU, 'C08': STATES, 'C16': MODEL},
    'C10': {'C04': TABLEAU, 'C08': STATES, 'C16': MODEL},
    'C11': {'C04': TABLEAU, 'C08': STATES, 'C09': EQUATIONS, 'C10': ['CollocationScheme (quadratures)'], 'C16': MODEL},
    'C12': {'C01': NODES, 'C02': ['PolynomialBasis.D'], 'C04': TABLEAU, 'C05': ['PiecewisePoly.__call__'], 'C06': ['PiecewisePoly.derivative'], 'C08': STATES},
    'C13': {'C02': ['collocationPoints', 'PolynomialBasis.D', 'PolynomialBasis.tau/numPoints/order']},
    'C14': {'C01': NODES, 'C02': ['collocationPoints'], 'C13': ['Pdq.__init__']},
    'C16': {'C15': ['Dae.__init__', 'SemiExplicitDae.__init__', 'ImplicitDae.__init__']},
    'C17': {'C19': ['CasadiStructureDerivable.__call__', 'structured vectors from dictionaries', 'structured vectors from dictionaries (elements)'], 'C21': ['MXVeccatStruct'], 'C24': ['entry']},
    'C18': {'C24': ['entry', 'Structure.__init__']},
    'C19': {'C18': LAYOUT, 'C20': POWER, 'C21': ['VertsplitStructure.buildMap']},
    'C20': {'C18': LAYOUT, 'C19': ACCESS},
    'C21': {'C18': LAYOUT, 'C19': ACCESS},
    'C22': {'C18': LAYOUT, 'C19': ACCESS, 'C20': POWER},
    'C23': {'C18': LAYOUT, 'C19': ACCESS, 'C20': POWER},
    'C25': {'C18': LAYOUT},
}
