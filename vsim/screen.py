"""Stand-ins for the display and keyboard functions of OpenCV and a camera.

The camera follows a schedule; keys are pressed at given numbers of reads and
wait in a queue until a poll takes them.
"""
import numpy as np

current = None


class Stuck(BaseException):
    pass


class Screen:
    def __init__(self, budget=400):
        self.shown = []          # (window, copy of the image)
        self.open = set()
        self.keys = []           # pressed and not yet polled
        self.polls = 0
        self.budget = budget
        self.esc_taken = None    # polls when ESC was handed over
        self.after_esc = 0
        self.raise_at = {}       # ('show', n) / ('poll', n) -> exception
        self.closed_all = 0
        self.log = []

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Stuck('the loop does not end')
        if self.esc_taken is not None:
            self.after_esc += 1

    def show(self, name, img):
        self.tick()
        self.log.append('show')
        self.open.add(name)
        self.shown.append((name, np.array(img, copy=True)))
        e = self.raise_at.get(('show', len(self.shown)))
        if e:
            raise e

    def poll(self):
        self.tick()
        self.polls += 1
        e = self.raise_at.get(('poll', self.polls))
        if e:
            raise e
        if self.keys:
            k = self.keys.pop(0)
            if k == 27 and self.esc_taken is None:
                self.esc_taken = self.polls
            self.log.append('key %d' % k)
            return k
        self.log.append('poll')
        return -1


class Camera:
    """schedule: list of ('frame', i) | ('fail',) | ('raise', exception);
    keys: {number of reads: [key codes]}; `tail` repeats for ever."""

    def __init__(self, screen, frames, schedule, keys, tail, size,
                 reuse=False):
        self.s, self.frames, self.schedule = screen, frames, list(schedule)
        self.keys, self.tail = keys, tail
        self.size = size
        self.buffer = reuse and None   # one array for all frames
        self.reuse = reuse
        self.reads = 0
        self.delivered = []
        self.released = 0
        self.used_after_release = False
        self.n = 0
        self._got = (False, None)

    def get(self, prop):
        import cv2
        if prop == cv2.CAP_PROP_FRAME_WIDTH:
            return float(self.size[1])
        if prop == cv2.CAP_PROP_FRAME_HEIGHT:
            return float(self.size[0])
        if prop == cv2.CAP_PROP_FPS:
            return 30.0
        return 0.0

    def isOpened(self):
        return not self.released

    def grab(self):
        self._got = self._next()
        return self._got[0]

    def retrieve(self, *a):
        return self._got

    def read(self, *a):
        return self._next()

    def _next(self):
        self.s.tick()
        if self.released:
            self.used_after_release = True
            return False, None
        self.reads += 1
        self.s.keys += self.keys.get(self.reads, [])
        if self.schedule:
            e = self.schedule.pop(0)
        else:
            e = (self.tail,)
        self.s.log.append('read ' + e[0])
        if e[0] == 'frame':
            f = self.frames[self.n % len(self.frames)].copy()
            self.n += 1
            self.delivered.append(f.copy())
            if self.reuse:
                if self.buffer is None or self.buffer.shape != f.shape or \
                        self.buffer.dtype != f.dtype:
                    self.buffer = f
                else:
                    self.buffer[...] = f
                f = self.buffer
            return True, f
        if e[0] == 'raise':
            raise e[1]
        return False, None

    def release(self):
        self.released += 1
        self.s.log.append('release')


def install(cv2):
    """Put the stand-ins into cv2; without a current screen they do nothing."""
    def imshow(name, img):
        if current:
            current.show(name, img)

    def poll(*a):
        return current.poll() if current else 27

    def close_all():
        if current:
            current.log.append('close all')
            current.open.clear()
            current.closed_all += 1

    def close(name):
        if current:
            current.open.discard(name)

    def named(name, *a):
        if current:
            current.open.add(name)

    def nothing(*a, **k):
        return 1.0
    cv2.imshow = imshow
    cv2.waitKey = cv2.waitKeyEx = cv2.pollKey = poll
    cv2.destroyAllWindows = close_all
    cv2.destroyWindow = close
    cv2.namedWindow = named
    for n in ('resizeWindow', 'moveWindow', 'setWindowTitle',
              'getWindowProperty', 'setWindowProperty'):
        setattr(cv2, n, nothing)
