"""C05: circuit breaker transparency and accounting."""
from specs import cb_common as cb


def call(ctx):
    cb.one_call(ctx, "C05")


def call_async(ctx):
    cb.one_call(ctx, "C05", is_async=True)


ASSUME = ["counter() is used through its contract (proved in C04)",
          "2**x is only known to be positive and ordered like x at 0 and 1"]
CONTRACTS = ["CircuitBreaker.call", "CircuitBreaker.call_async",
             "CircuitBreaker.context", "utils.awaitable (inlined)"]
HARNESSES = [("call", call), ("call_async", call_async),
             ("counter", cb.counter_contract)]
FUZZ = [("history", cb.fuzz_history), ("overlap", cb.fuzz_overlap),
        ("cutout", cb.fuzz_cutout)]
FUZZ_S = 6
