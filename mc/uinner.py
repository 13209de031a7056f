"""In a file of its own: the library reads the source of the class to find inner classes, which is slow in big files."""
from typing import Optional



class SPlain:
    cv = 1
    _cv = 2

    def __init__(self, a: int = 1, n: Optional[int] = None):
        self.a, self.n, self.__x, self.__d__ = a, n, 5, 6

    @property
    def prop(self):
        return self.a

    class In:
        y = 1
