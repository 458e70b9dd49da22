"""Property id -> module that defines it."""

MODULES = {}
for _mod, _ids in {
    "p_ewma": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"],
    "p_combination": ["C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"],
    "p_regularization": ["C20", "C21", "C22"],
    "p_api": ["C23"],
    "p_estimators": ["C24", "C25", "C26", "C27", "C28"],
    "p_models": ["C29", "C30", "C31", "C32", "C33"],
    "p_trading": ["C34", "C35", "C36", "C37", "C38"],
}.items():
    for _id in _ids:
        MODULES[_id] = "pbt.props." + _mod
