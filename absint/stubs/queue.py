from collections import deque
import _absint


class Empty(Exception):
    pass


class Full(Exception):
    pass


class Queue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.queue = deque()

    def qsize(self):
        return len(self.queue)

    def empty(self):
        return not self.queue

    def full(self):
        return 0 < self.maxsize <= len(self.queue)

    def put(self, item, block=True, timeout=None):
        if self.full():
            if not block or timeout is not None:
                raise Full
            _absint.prune()
        self.queue.append(item)

    def put_nowait(self, item):
        self.put(item, False)

    def get(self, block=True, timeout=None):
        if not self.queue:
            if not block or timeout is not None:
                raise Empty
            _absint.prune()
        return self.queue.popleft()

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        pass

    def join(self):
        pass


SimpleQueue = Queue


class LifoQueue(Queue):
    def get(self, block=True, timeout=None):
        if not self.queue:
            raise Empty
        return self.queue.pop()
