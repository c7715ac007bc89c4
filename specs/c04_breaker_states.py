"""C04: circuit breaker state machine."""
from specs import cb_common as cb


def transition(ctx):
    cb.one_call(ctx, "C04")


ASSUME = ["recovery_ratio and counter() are used through their contracts in "
          "the transition proof and proved separately",
          "pre-states: stuck_until <= recovery_at <= now while RECOVERING "
          "(established by the transition contract)"]
CONTRACTS = ["CircuitBreaker.call/context/_compute_state: transition relation",
             "CircuitBreaker.recovery_ratio: share of bad buckets (any number)",
             "CircuitBreaker window: buckets within the response time",
             "CircuitBreaker.counter: one counter per bucket",
             "CircuitBreaker.bucket: monotone"]
HARNESSES = [("transition", transition), ("recovery_ratio", cb.ratio_contract),
             ("window", cb.window_contract), ("counter", cb.counter_contract),
             ("bucket", cb.bucket_contract)]
FUZZ = [("history", cb.fuzz_history)]
FUZZ_S = 5
