"""Classical rules over resolved syntax trees."""


class RuleResult:
    def __init__(self):
        self.checked = 0
        self.violations = []
        self.used = {}
        self.broken = None
        self.samples = []
