"""property id -> module name"""
REGISTRY = {
    "C01": "rates",
    "C02": "conserve",
    "C03": "transport",
    "C04": "isolation", "C05": "sampling",
    "C06": "recovery",
    "C07": "evaluator",
    "C08": "checkpoint", "C09": "artifacts", "C10": "fits", "C11": "spaces", "C12": "templates", "C13": "gather", "C15": "generation", "C16": "barriers", "C17": "enumeration", "C18": "entry", "C19": "dataset",
}
