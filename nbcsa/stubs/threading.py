# threads and locks as the analysis sees them


class Lock(object):
    def __init__(self):
        self._depth = 0
        __lock__('new', self)

    def acquire(self, blocking=True, timeout=-1):
        if not blocking or timeout != -1:
            if __fresh__('lock_missed', 'bool'):
                return False
        elif self._depth > 0:
            __lock__('again', self)
        self._depth = 1
        return True

    def release(self):
        if self._depth == 0:
            raise RuntimeError('release unlocked lock')
        self._depth = 0

    def locked(self):
        return __fresh__('locked', 'bool')

    def __enter__(self):
        return self.acquire()

    def __exit__(self, a, b, c):
        self.release()


class RLock(Lock):
    def acquire(self, blocking=True, timeout=-1):
        if not blocking or timeout != -1:
            if self._depth == 0 and __fresh__('lock_missed', 'bool'):
                return False
        self._depth += 1
        return True

    def release(self):
        if self._depth == 0:
            raise RuntimeError('cannot release un-acquired lock')
        self._depth -= 1


class Condition(RLock):
    def __init__(self, lock=None):
        if lock is not None:
            __unsup__('a condition of another lock')
        RLock.__init__(self)

    def _owned(self):
        if self._depth == 0:
            raise RuntimeError('cannot wait on un-acquired lock')

    def wait(self, timeout=None):
        self._owned()
        return True

    def notify(self, n=1):
        self._owned()

    def notify_all(self):
        self._owned()


class Event(object):
    def __init__(self):
        self._flag = False

    def is_set(self):
        return __fresh__('event_set', 'bool')

    def set(self):
        pass

    def clear(self):
        pass

    def wait(self, timeout=None):
        return __fresh__('event_set', 'bool')


class Thread(object):
    daemon = False

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._joined = False
        self._target = target
        self._args = args
        self._kwargs = kwargs
        self.name = name
        if daemon is not None:
            self.daemon = daemon

    def run(self):
        if self._target is not None:
            if self._kwargs is None:
                self._target(*self._args)
            else:
                self._target(*self._args, **self._kwargs)

    def start(self):
        __lock__('start', self)

    def join(self, timeout=None):
        if timeout is None:
            __lock__('join', self)
            self._joined = True

    def is_alive(self):
        return __fresh__('alive', 'bool')

    def setDaemon(self, flag):
        self.daemon = flag

    def isDaemon(self):
        return self.daemon
