"""Which specifications decide which property, and how they are bound to the code."""

BINDINGS = {
    'P02': [{'kind': 'graph', 'module': 'ObjDerived', 'domain': 'objderived'},
            {'kind': 'graph', 'module': 'DerivedArr', 'domain': 'derivedarr'},
            {'kind': 'graph', 'module': 'DerivedDeep', 'domain': 'deriveddeep', 'rounds': 1, 'rounds_thorough': 4}],
    'P03': [{'kind': 'graph', 'module': 'ObjNames', 'domain': 'objnames', 'cfg_thorough': 'ObjNamesT'}],
    'P04': [{'kind': 'graph', 'module': 'ObjShape', 'domain': 'objshape'}],
    'P06': [{'kind': 'graph', 'module': 'ObjSerial', 'domain': 'objserial'}, {'kind': 'graph', 'module': 'EntSer', 'domain': 'entser', 'maxlen': 12}],
    'P01': [{'kind': 'graph', 'module': 'Constr', 'domain': 'constr', 'cfg_thorough': 'Constr3', 'rounds_thorough': 1, 'maxlen': 12},
            {'kind': 'graph', 'module': 'Typed', 'domain': 'typed'}],
    'P05': [{'kind': 'graph', 'module': 'Inherit', 'domain': 'inherit', 'cfg_thorough': 'Inherit3', 'maxlen': 5, 'rounds': 2, 'rounds_thorough': 1},
            {'kind': 'graph', 'module': 'Accessors', 'domain': 'accessors'},
            {'kind': 'graph', 'module': 'Expand', 'domain': 'expand', 'maxlen': 4},
            {'kind': 'sim', 'module': 'Inherit', 'cfg': 'InheritSim', 'domain': 'inherit', 'num': 500, 'depth': 12, 'num_thorough': 4000}],
    'P07': [{'kind': 'graph', 'module': 'LazyTwin', 'domain': 'lazytwin'}],
    'P08': [{'kind': 'graph', 'module': 'Array', 'domain': 'array', 'cfg_thorough': 'Array4'}, {'kind': 'graph', 'module': 'ArrObj', 'domain': 'arrobj', 'cfg_thorough': 'ArrObj3'}],
    'P09': [{'kind': 'graph', 'module': 'Family', 'domain': 'family', 'pad': 4},
            {'kind': 'graph', 'module': 'Family', 'cfg': 'FamilyDer', 'cfg_thorough': 'FamilyDer2', 'domain': 'family', 'pad': 4},
            {'kind': 'sim', 'module': 'Family', 'cfg': 'FamilySim', 'domain': 'family', 'num': 130, 'depth': 16, 'num_thorough': 1500}],
    'P13': [{'kind': 'graph', 'module': 'Repo', 'domain': 'repo', 'cfg_thorough': 'Repo3', 'pad': 4},
            {'kind': 'sim', 'module': 'Repo', 'cfg': 'RepoSim', 'domain': 'repo', 'num': 400, 'depth': 40, 'num_thorough': 4000},
            {'kind': 'graph', 'module': 'SesNames', 'domain': 'sesnames', 'cfg_thorough': 'SesNames3', 'maxlen': 12}],
    'P18': [{'kind': 'graph', 'module': 'Fkeys', 'domain': 'fkeys', 'maxlen': 12},
            {'kind': 'sim', 'module': 'Fkeys', 'cfg': 'FkeysSim', 'domain': 'fkeys', 'num': 250, 'depth': 40, 'num_thorough': 4000}],
    'P19': [{'kind': 'graph', 'module': 'Maps', 'domain': 'maps', 'maxlen': 12},
            {'kind': 'sim', 'module': 'Maps', 'cfg': 'MapsSim', 'domain': 'maps', 'num': 120, 'depth': 30, 'num_thorough': 2500},
            {'kind': 'graph', 'module': 'Regs', 'domain': 'regs', 'cfg_thorough': 'Regs4', 'maxlen': 12},
            {'kind': 'graph', 'module': 'KeyDicts', 'domain': 'keydicts', 'maxlen': 12}],
    'P20': [{'kind': 'graph', 'module': 'Decor', 'domain': 'decor', 'maxlen': 12},
            {'kind': 'graph', 'module': 'Memo', 'domain': 'memo', 'maxlen': 12},
            {'kind': 'sim', 'module': 'Memo', 'cfg': 'MemoSim', 'domain': 'memo', 'num': 300, 'depth': 40, 'num_thorough': 4000}],
    'P21': [{'kind': 'graph', 'module': 'Colls', 'domain': 'colls', 'cfg_thorough': 'CollsDeep', 'maxlen': 12},
            {'kind': 'graph', 'module': 'Within', 'domain': 'within', 'maxlen': 12}],
    'P22': [{'kind': 'graph', 'module': 'Scoped', 'domain': 'scoped', 'maxlen': 12}],
    'P23': [{'kind': 'graph', 'module': 'Poly', 'domain': 'poly', 'cfg_thorough': 'Poly2', 'maxlen': 12, 'rounds_thorough': 1},
            {'kind': 'sim', 'module': 'Poly', 'cfg': 'PolySim', 'domain': 'poly', 'num': 400, 'depth': 30, 'num_thorough': 4000}],
    'P14': [{'kind': 'graph', 'module': 'Defaults', 'domain': 'defaults', 'pad': 4}],
    'P15': [{'kind': 'graph', 'module': 'Spaces', 'domain': 'spaces', 'cfg_thorough': 'Spaces2', 'maxlen': 12},
            {'kind': 'graph', 'module': 'Spaces', 'cfg': 'SpacesF', 'domain': 'spaces', 'maxlen': 12},
            {'kind': 'sim', 'module': 'Spaces', 'cfg': 'SpacesSim', 'domain': 'spaces', 'num': 20, 'depth': 14, 'num_thorough': 200}],
    'P16': [{'kind': 'graph', 'module': 'Docs', 'domain': 'docs', 'pad': 4}],
    'P17': [{'kind': 'graph', 'module': 'Types', 'domain': 'types', 'cfg_thorough': 'Types3', 'maxlen': 12, 'rounds_thorough': 2},
            {'kind': 'sim', 'module': 'Types', 'cfg': 'TypesSim', 'domain': 'types', 'num': 500, 'depth': 12, 'num_thorough': 2500}],
    'P10': [{'kind': 'graph', 'module': 'Temporal', 'domain': 'temporal', 'pad': 4}, {'kind': 'graph', 'module': 'Refs', 'domain': 'refs', 'pad': 4}],
    'P11': [{'kind': 'graph', 'module': 'QFilter', 'domain': 'qfilter', 'maxlen': 60}],
    'P12': [{'kind': 'graph', 'module': 'QResult', 'domain': 'qresult', 'cfg_thorough': 'QResultT', 'rounds_thorough': 1, 'pad': 4},
            {'kind': 'sim', 'module': 'QResult', 'cfg': 'QResultSim', 'domain': 'qresult', 'num': 160, 'depth': 24, 'num_thorough': 2500}],
}
