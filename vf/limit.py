"""limits on code under contract that may never return"""
import contextlib
import resource
import signal


class NoEnd(Exception):
    pass


@contextlib.contextmanager
def time_limit(seconds, error=NoEnd):
    """raises the error inside of code that does not return within so many seconds of CPU time
    or takes more than 3 GB"""
    def stop(*_):
        raise error(f"did not return within {seconds} s of CPU time")
    old = signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    limits = resource.getrlimit(resource.RLIMIT_AS)
    used = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (used + (3 << 30), limits[1]))
    try:
        yield
    except (MemoryError, SystemError) as e:           # out of memory, the interpreter may not get its error through
        resource.setrlimit(resource.RLIMIT_AS, limits)
        raise error(f"took more than 3 GB ({e!r})") from None
    finally:
        resource.setrlimit(resource.RLIMIT_AS, limits)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
