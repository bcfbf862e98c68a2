import json

# files as the analysis sees them: every operation is an event, and may fail


def _may_fail(op, path):
    if __fresh__('io_fail', 'bool'):
        raise OSError(op)


class File(object):
    def __init__(self, path, mode):
        self._path = path
        self._mode = mode
        self._closed = False

    def write(self, data):
        __emit__('fs', 'write', self._path, data)
        _may_fail('write', self._path)
        return len(data)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def read(self):
        _may_fail('read', self._path)
        return __app__('file_contents', 'str', self._path)

    def flush(self):
        __emit__('fs', 'flush', self._path)
        _may_fail('flush', self._path)

    def fileno(self):
        return FileNo(self._path)

    def close(self):
        if not self._closed:
            self._closed = True
            __emit__('fs', 'close', self._path)

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()


class FileNo(object):
    def __init__(self, path):
        self._path = path


def open(path, mode='r', *args, **kw):
    if isinstance(path, FileNo):
        return File(path._path, mode)
    if mode in ('r', 'rb', 'rt'):
        _may_fail('open', path)
    else:
        __emit__('fs', 'open', path, mode)
        _may_fail('open', path)
    return File(path, mode)


def os_open(path, flags, mode=0o777):
    return open(path, 'wb' if flags & 3 else 'rb').fileno()


def fdopen(fd, mode='r', *args, **kw):
    if isinstance(fd, FileNo):
        return File(fd._path, mode)
    return fd


def os_write(fd, data):
    f = fdopen(fd, 'wb')
    f.write(data)
    f.flush()
    return len(data)


def os_close(fd):
    fdopen(fd, 'wb').close()


def fsync(fd):
    if isinstance(fd, File):
        fd = fd.fileno()
    __emit__('fs', 'fsync', fd._path)
    _may_fail('fsync', fd._path)


def rename(a, b):
    __emit__('fs', 'rename', a, b)
    _may_fail('rename', b)


def remove(a):
    __emit__('fs', 'remove', a)
    _may_fail('remove', a)


def exists(a):
    return __app__('exists', 'bool', a)


def islink(a):
    return __app__('islink', 'bool', a)


def isfile(a):
    return __app__('isfile', 'bool', a)


def isdir(a):
    return __app__('isdir', 'bool', a)


def access(a, mode):
    return __app__('access', 'bool', a, mode)


class JSONEncoder(object):
    def __init__(self, **kw):
        pass

    def encode(self, o):
        return json.dumps(o)

    def iterencode(self, o):
        return [json.dumps(o)]


class JSONDecoder(object):
    def __init__(self, **kw):
        pass

    def decode(self, s):
        return json.loads(s)
