"""Clocks moved by hand, one per thread: substitutes of the modules time and datetime for the code under test."""
import datetime as real_datetime
import threading
import time as real_time
import types


class Clock:
    def __init__(self, base=1600000000.25):
        self.base = base
        self.local = threading.local()

    def now(self):
        return self.base + getattr(self.local, 'offset', 0.0)

    def advance(self, seconds):
        self.local.offset = getattr(self.local, 'offset', 0.0) + seconds

    def datetime(self, moment=None):
        return real_datetime.datetime.fromtimestamp(self.now() if moment is None else moment)

    def modules(self):
        fake_time = types.ModuleType('time')
        fake_time.__dict__.update({k: v for k, v in real_time.__dict__.items() if not k.startswith('__')})
        fake_time.time = self.now
        fake_time.monotonic = fake_time.perf_counter = lambda: self.now() - self.base + 1000
        fake_time.time_ns = lambda: int(self.now() * 10 ** 9)
        fake_time.monotonic_ns = fake_time.perf_counter_ns = lambda: int((self.now() - self.base + 1000) * 10 ** 9)
        clock = self

        class Meta(type):
            def __instancecheck__(cls, item):
                return isinstance(item, real_datetime.datetime)

        class FakeDatetime(real_datetime.datetime, metaclass=Meta):
            @classmethod
            def now(cls, tz=None):
                return real_datetime.datetime.fromtimestamp(clock.now(), tz)

            @classmethod
            def today(cls):
                return cls.now()

            @classmethod
            def fromtimestamp(cls, moment, tz=None):
                return real_datetime.datetime.fromtimestamp(moment, tz)

        fake_datetime = types.ModuleType('datetime')
        fake_datetime.__dict__.update({k: v for k, v in real_datetime.__dict__.items() if not k.startswith('__')})
        fake_datetime.datetime = FakeDatetime
        return {'time': fake_time, 'datetime': fake_datetime}
