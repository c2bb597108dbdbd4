"""The framework's own PRNG (SplitMix64): independent of numpy/random, which the code under test uses."""
import hashlib

M = (1 << 64) - 1


def mix(*parts):
    h = hashlib.sha256('\x1f'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'little')


class Rng:
    def __init__(self, seed):
        self.s = seed & M

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & M
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
        return z ^ (z >> 31)

    def fork(self, name):
        return Rng(mix(self.next(), name))

    def random(self):
        return (self.next() >> 11) / float(1 << 53)

    def randint(self, a, b):
        """inclusive"""
        return a + self.next() % (b - a + 1)

    def chance(self, p):
        return self.random() < p

    def choice(self, seq):
        return seq[self.next() % len(seq)]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def shuffle(self, lst):
        for i in range(len(lst) - 1, 0, -1):
            j = self.next() % (i + 1)
            lst[i], lst[j] = lst[j], lst[i]
        return lst

    def sample(self, seq, k):
        lst = list(seq)
        self.shuffle(lst)
        return lst[:k]

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def nice(self, a, b, digits=3):
        return round(self.uniform(a, b), digits)

    def bits(self, n, p=0.5):
        return [1 if self.random() < p else 0 for _ in range(n)]
