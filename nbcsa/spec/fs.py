"""Reference definitions: what a disk keeps when a save stops anywhere (read by the analysis, never run)."""


class Disk(object):
    """typestate of the files a save touches; `target` is the wallet file"""
    def __init__(self, target):
        self.target = target
        self.wrong = None      # the first step after which an interruption loses the wallet
        self.stage = {}        # other files: open -> written -> flushed -> durable, or partial
        self.done = False

    def fault(self, text):
        if self.wrong is None:
            self.wrong = text

    def fails(self):
        if __fresh__('io_fail', 'bool'):
            raise OSError('failed')

    def open(self, path, mode):
        if 'w' in mode or 'a' in mode or '+' in mode or 'x' in mode:
            if path == self.target:
                self.fault('the wallet file is opened for writing in its place')
            else:
                self.stage[path] = 'open'
            if __fresh__('io_fail', 'bool'):
                raise OSError('failed')
        else:
            self.fails()

    def write(self, path, data):
        if path == self.target:
            self.fault('the wallet file is written in its place')
        else:
            if __fresh__('io_fail', 'bool'):
                self.stage[path] = 'partial'
                raise OSError('failed')
            if self.stage.get(path) != 'partial':
                self.stage[path] = 'written'

    def flush(self, path):
        if __fresh__('io_fail', 'bool'):
            self.stage[path] = 'partial'
            raise OSError('failed')
        if self.stage.get(path) == 'written':
            self.stage[path] = 'flushed'

    def close(self, path):
        if self.stage.get(path) == 'written':
            self.stage[path] = 'flushed'

    def fsync(self, path):
        if __fresh__('io_fail', 'bool'):
            if path != self.target:
                self.stage[path] = 'partial'
            raise OSError('failed')
        if self.stage.get(path) == 'flushed':
            self.stage[path] = 'durable'

    def rename(self, a, b):
        if a == self.target:
            self.fault('the wallet file is moved away')
        elif b == self.target:
            s = self.stage.get(a)
            if s is None:
                self.fault('a file that was not written takes the place of the wallet')
            elif s == 'open':
                self.fault('an empty file takes the place of the wallet')
            elif s == 'partial':
                self.fault('a file that could not be written completely takes the place of the wallet')
            elif s != 'durable':
                self.fault('a file that was not forced to disk takes the place of the wallet')
            elif not __near__(a, b):
                self.fault('the new file may be on another file system')
            self.fails()
            self.done = True
            self.stage[a] = 'gone'
        else:
            self.fails()

    def remove(self, a):
        if a == self.target:
            self.fault('the wallet file is removed before the new one is there')
        self.fails()

    def verdict(self, returned):
        if self.wrong is not None:
            return self.wrong
        if returned and not self.done:
            return 'the save reports success without a new wallet file'
        return 'the old or the new wallet is there at every step'


class Handle(object):
    def __init__(self, disk, path, mode):
        self.disk = disk
        self.path = path
        self.closed = False
        disk.open(path, mode)

    def write(self, data):
        self.disk.write(self.path, data)
        return len(data)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        self.disk.flush(self.path)

    def fileno(self):
        return self

    def close(self):
        if not self.closed:
            self.closed = True
            self.disk.close(self.path)

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()


def attempt(disk, save, name, wallet, args):
    ok = True
    try:
        save(name, wallet, *args)
    except Exception:
        ok = False
    return disk.verdict(ok)
