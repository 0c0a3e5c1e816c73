"""Which module decides the properties that are not about server traffic."""

FAMILY = {"C06": "variants", "C08": "storage", "C09": "storage", "C10": "page", "C11": "page", "C12": "browser", "C16": "storage", "C20": "page"}
