"""Control over the simulation build of the extension."""
import ctypes

FIELDS = ('allocations', 'entries', 'live', 'failed', 'requested', 'yields',
          'all_allocations', 'live_bytes')


class Native:
    def __init__(self, path):
        library = ctypes.PyDLL(path)  # calls are made with the lock held
        self.library = library
        u64 = ctypes.c_uint64
        library.sim_environment.argtypes = [u64, ctypes.c_int, ctypes.c_int]
        library.sim_arm.argtypes = [u64, u64, u64]
        library.sim_counters.argtypes = [ctypes.POINTER(u64)]
        library.sim_record.argtypes = [ctypes.c_int]
        library.sim_places.argtypes = [ctypes.c_int, ctypes.POINTER(u64),
                                       ctypes.c_size_t]
        library.sim_places.restype = ctypes.c_size_t
        self._buffer = (u64 * len(FIELDS))()
        self._callback = None

    def environment(self, seed, junk, shuffle):
        self.library.sim_environment(seed & (2 ** 64 - 1), junk, shuffle)

    def arm(self, allocation=0, request=0, budget=0):
        self.library.sim_arm(allocation, request, budget)

    def disarm(self):
        self.library.sim_disarm()

    def record(self, on):
        self.library.sim_record(on)

    def places(self, of_allocations):
        """For every place number of one of passages of it."""
        buffer = (ctypes.c_uint64 * 4096)()
        size = self.library.sim_places(of_allocations, buffer, 4096)
        return sorted(buffer[:size])

    def request(self):
        self.library.sim_request()

    def pending(self):
        return bool(self.library.sim_pending())

    def reset_request(self):
        self.library.sim_reset_request()

    def counters(self):
        self.library.sim_counters(self._buffer)
        return dict(zip(FIELDS, self._buffer))

    def set_yield(self, function):
        # ctypes acquires the interpreter lock around the function
        prototype = ctypes.CFUNCTYPE(None)
        self._callback = (ctypes.cast(None, prototype) if function is None
                          else prototype(function))
        self.library.sim_set_yield(self._callback)
