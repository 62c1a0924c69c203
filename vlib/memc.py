"""A memcached stand-in with virtual time, hooks and pymemcache's client interface."""
import threading


class Clock:
    def __init__(self, now=1_700_000_000.0):
        self.now = now


class Memcache:
    """Behaves as one memcached server: one atomic command at a time.

    hook(phase, command): called before ('before') and after ('after') every command
    takes effect; it may switch threads, advance the clock or raise."""
    def __init__(self, clock=None, hook=None):
        self.clock = clock or Clock()
        self.hook = hook or (lambda phase, cmd: None)
        self.data = {}       # key -> (value bytes, expiry or None, cas)
        self.cas_id = 0
        self.log = []
        self.mutex = threading.RLock()

    @staticmethod
    def _key(key):
        k = key.encode() if isinstance(key, str) else bytes(key)
        if len(k) > 250 or any(b <= 32 or b == 127 for b in k):
            raise ValueError(f'illegal memcache key {key!r}')
        return k

    def _value(self, v):
        return v if isinstance(v, bytes) else str(v).encode()

    def _expiry(self, expire):
        if not isinstance(expire, int):
            raise ValueError('expire must be integer')     # as pymemcache does
        if expire == 0:
            return None
        if expire < 0:
            return self.clock.now
        return expire if expire > 30 * 86400 else self.clock.now + expire

    def _live(self, k):
        item = self.data.get(k)
        if item and item[1] is not None and item[1] <= self.clock.now:
            del self.data[k]
            item = None
        return item

    def _run(self, cmd, key, fn):
        k = self._key(key)
        self.hook('before', cmd)
        with self.mutex:
            ret = fn(k)
            self.took_effect = self.clock.now
            self.log.append((cmd, k, ret))
        self.hook('after', cmd)
        return ret

    def _put(self, k, value, expire):
        self.cas_id += 1
        self.data[k] = (self._value(value), self._expiry(expire), str(self.cas_id).encode())
        return True

    def add(self, key, value, expire=0, noreply=False, flags=None):
        return self._run('add', key, lambda k: False if self._live(k) else self._put(k, value, expire))

    def set(self, key, value, expire=0, noreply=False, flags=None):
        return self._run('set', key, lambda k: self._put(k, value, expire))

    def replace(self, key, value, expire=0, noreply=False, flags=None):
        return self._run('replace', key, lambda k: self._put(k, value, expire) if self._live(k) else False)

    def cas(self, key, value, cas, expire=0, noreply=False, flags=None):
        def fn(k):
            item = self._live(k)
            if not item:
                return None
            return self._put(k, value, expire) if item[2] == cas else False
        return self._run('cas', key, fn)

    def get(self, key, default=None):
        def fn(k):
            item = self._live(k)
            return item[0] if item else default
        return self._run('get', key, fn)

    def gets(self, key, default=None, cas_default=None):
        def fn(k):
            item = self._live(k)
            return (item[0], item[2]) if item else (default, cas_default)
        return self._run('gets', key, fn)

    def get_many(self, keys):
        return {k: v for k in keys if (v := self.get(k)) is not None}
    get_multi = get_many

    def touch(self, key, expire=0, noreply=False):
        def fn(k):
            item = self._live(k)
            if not item:
                return False
            self.data[k] = (item[0], self._expiry(expire), item[2])
            return True
        return self._run('touch', key, fn)

    def delete(self, key, noreply=False):
        def fn(k):
            found = self._live(k) is not None
            self.data.pop(k, None)
            return found
        return self._run('delete', key, fn)

    def _incr(self, k, by):
        item = self._live(k)
        if not item:
            return None
        n = max(0, int(item[0]) + by)
        self.cas_id += 1
        self.data[k] = (str(n).encode(), item[1], str(self.cas_id).encode())
        return n

    def incr(self, key, value, noreply=False):
        return self._run('incr', key, lambda k: self._incr(k, value))

    def decr(self, key, value, noreply=False):
        return self._run('decr', key, lambda k: self._incr(k, -value))

    def flush_all(self, delay=0, noreply=False):
        self.data.clear()
        return True

    # harness access, without hooks
    def peek(self, key):
        item = self._live(self._key(key))
        return item[0] if item else None
