"""Deterministic scheduler for the worker threads of ncdiff: every source line of
src/ncdiff/model.py executed by a worker is a scheduling point, decided by a seeded
choice sequence. A thread that blocks (lock, queue) loses its turn."""
import random, sys, threading, time


class Sched:
    def __init__(self, seed, files, stick=0.7):
        self.rng = random.Random(seed)
        self.cv = threading.Condition()
        self.turn = None
        self.waiting = set()
        self.live = set()
        self.files = tuple(files)
        self.stick = stick
        self.points = 0

    def choose(self):
        w = sorted(self.waiting)
        if w:
            self.turn = self.rng.choice(w)
            self.cv.notify_all()

    def point(self):
        me = threading.current_thread().name
        with self.cv:
            self.points += 1
            if self.turn == me and self.rng.random() < self.stick:
                return
            self.waiting.add(me)
            if self.turn in (None, me) or self.turn not in self.live:
                self.choose()
            t0 = time.time()
            while self.turn != me:
                self.cv.wait(0.002)
                if self.turn != me and time.time() - t0 > 0.004:        # the holder is blocked: take over
                    self.choose()
                    t0 = time.time()
            self.waiting.discard(me)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(self.files):
            return None

        def local(frame, event, arg):
            if event == 'line':
                self.point()
            return local
        return local

    def wrap(self, run):
        def wrapped():
            me = threading.current_thread().name
            with self.cv:
                self.live.add(me)
            sys.settrace(self.trace)
            try:
                run()
            finally:
                sys.settrace(None)
                with self.cv:
                    self.live.discard(me)
                    self.waiting.discard(me)
                    if self.turn == me:
                        self.turn = None
                        self.choose()
        return wrapped
