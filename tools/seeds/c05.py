seed('B05', 'C05', [('satella/coding/structures/ranking.py', '''        index = self.ranking.add(item)
        for position, item in enumerate(self.ranking[index:], start=index):
            self.element_to_position[id(item)] = position
''', '''        index = self.ranking.add(item)
        self.element_to_position[id(item)] = index
        for follower in self.ranking[index + 1:]:
            if self.key(follower) != self.key(item):
                self.element_to_position[id(follower)] += 1
''')], '''
from satella.coding.structures import Ranking
class E:
    def __init__(self, k): self.k = k
es = [E(1), E(2), E(3)]
r = Ranking(es, lambda e: e.k)
n = E(2)
r.add(n)
for e in es + [n]:
    assert r[r.calculate_ranking_for(e)] is e, 'element is not at the position reported'
''', 'an element is added whose key equals the key of an element already ranked',
     'the elements with the same key that follow keep their old position')
