"""C02: aggregation failures reach every caller."""
from specs import agg_common as ag

ASSUME = ["asyncio.Event/Lock/Future/wait_for are used through contracts "
          "(specs/agg_common.py)",
          "other callers of the aggregator only act through aggregate()"]
CONTRACTS = ["AggregatorAsync.aggregate (rely-guarantee over the batch state)",
             "AggregatorAsync._execute (any number of arguments)",
             "_to_async_aggregate (any number of arguments)"]
HARNESSES = [("aggregate", ag.aggregate_contract),
             ("execute", ag.execute_contract),
             ("pairing", ag.pairing_contract)]
FUZZ = [("failures", ag.fuzz_fail)]
FUZZ_S = 6
