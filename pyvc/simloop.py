"""A real asyncio event loop on virtual time, for concrete executions of the
unmodified modules: timers cost nothing, a loop with nothing left to do is
reported as a hang instead of blocking."""
import asyncio
import logging
import selectors
import warnings


class Hang(Exception):
    """nothing is scheduled any more, but the awaited result is not there"""


class _Selector:
    def __init__(self, loop):
        self.real = selectors.DefaultSelector()
        self.loop = loop

    def select(self, timeout=None):
        ev = self.real.select(0)
        if ev:
            return ev
        lp = self.loop
        if timeout is None:
            if lp.external:
                return self.real.select(0.2)
            lp.hang = True
            lp.stop()
            return []
        if timeout > 0:
            lp.vtime += timeout
            if lp.vtime > lp.horizon:
                lp.hang = True
                lp.stop()
        return []

    def __getattr__(self, name):
        return getattr(self.real, name)


class SimLoop(asyncio.SelectorEventLoop):
    def __init__(self, start=1000.0, horizon=1e6):
        self.vtime = start
        self.horizon = start + horizon
        self.external = 0       # >0 while threads may wake the loop up
        self.hang = False
        self.steps = 0
        self.errors = []
        self.max_steps = 200000
        super().__init__(_Selector(self))
        self.set_exception_handler(
            lambda loop, c: self.errors.append(c))

    def time(self):
        return self.vtime

    def _run_once(self):
        self.steps += 1
        if self.steps > self.max_steps:
            self.hang = True
            self.stop()
        super()._run_once()


def run(main, start=1000.0, horizon=1e6):
    """run main(loop) to the end on a fresh virtual loop"""
    loop = SimLoop(start, horizon)
    old_task = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        asyncio.set_event_loop(loop)
        try:
            async def go():
                return await main(loop)
            task = loop.create_task(go())
            task.add_done_callback(lambda t: loop.stop())
            loop.run_forever()
            if not task.done():
                raise Hang("no progress is possible any more")
            return task.result()
        finally:
            try:
                loop.hang = False
                loop.steps = 0
                ts = [t for t in asyncio.all_tasks(loop) if not t.done()]
                for t in ts:
                    t.cancel()
                if ts:
                    loop.horizon = loop.vtime + 1e7
                    f = asyncio.gather(*ts, return_exceptions=True)
                    f.add_done_callback(lambda _: loop.stop())
                    loop.run_forever()
            except BaseException:
                pass
            asyncio.set_event_loop(None)
            loop.close()


logging.getLogger("asyncio").setLevel(logging.CRITICAL)
