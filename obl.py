class Ob:
    """one obligation: run() -> (status, detail) with status holds/violated/undecided"""
    def __init__(self, key, where, rule, run, limit=150): self.key, self.where, self.rule, self.run, self.limit = key, where, rule, run, limit

