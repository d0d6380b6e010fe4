import _absint


class Random:
    def __init__(self, x=None):
        pass

    def seed(self, a=None):
        pass

    def getrandbits(self, k):
        return _absint.rand('random', int)

    def randint(self, a, b):
        return _absint.rand('random', int)

    def random(self):
        return _absint.rand('random', float)

    def choice(self, seq):
        return seq[0]

    def uniform(self, a, b):
        return _absint.rand('random', float)

    def randrange(self, *a):
        return _absint.rand('random', int)

    def sample(self, population, k):
        return list(population)[:k]

    def shuffle(self, x):
        pass


class SystemRandom(Random):
    pass


_inst = Random()


def seed(a=None):
    _absint.global_rng('seed')


def getrandbits(k):
    _absint.global_rng('getrandbits')
    return _inst.getrandbits(k)


def randint(a, b):
    _absint.global_rng('randint')
    return _inst.randint(a, b)


def randrange(*a):
    _absint.global_rng('randrange')
    return _inst.randrange(*a)


def random():
    _absint.global_rng('random')
    return _inst.random()


def uniform(a, b):
    _absint.global_rng('uniform')
    return _inst.uniform(a, b)


def choice(seq):
    _absint.global_rng('choice')
    return _inst.choice(seq)


def shuffle(x):
    _absint.global_rng('shuffle')
