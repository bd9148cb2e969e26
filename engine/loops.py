class Loops:
    def __init__(self, eng): self.e = eng
    def try_summarize(self, st, fr, c): return False
