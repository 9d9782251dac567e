# reasons for properties that are not claimed; levels of those that are
DROPPED = {}
LEVELS = {"C13": "model_checking", "C16": "model_checking", "C10": "model_checking", "C12": "model_checking"}
