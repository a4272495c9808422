seed('B19', 'C19', [('satella/time/measure.py', '''        self.stopped_on = self.time_getter_callable()
        self.elapsed = self.stopped_on - self.started_on
''', '''        self.elapsed = self.time_getter_callable() - self.started_on
        self.stopped_on = self.started_on + self.elapsed
        self.create_stopped = True      # remember that it has to be started again
''')], '''
from satella.time import measure

now = [0]
m = measure(time_getter_callable=lambda: now[0])
now[0] = 3
m.stop()


@m
def f(measurement):
    now[0] += 2
    return measurement()


assert f() == 2, 'the call took 2, %r was measured' % f()
''', 'a measurement that was stopped once is used as a decorator', 'calls are not measured by a measurement that was used before')
