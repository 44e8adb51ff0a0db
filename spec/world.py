"""What a run leaves behind outside its results.  Analysed, never executed."""


class World:
    pass
