"""C01: aggregation batches calls."""
from specs import agg_common as ag

ASSUME = ["asyncio.Event/Lock/Future/wait_for are used through contracts "
          "(specs/agg_common.py)",
          "other callers of the aggregator only act through aggregate()"]
CONTRACTS = ["AggregatorAsync.aggregate (rely-guarantee over the batch state)",
             "AggregatorAsync._execute (any number of arguments)",
             "_to_async_aggregate (any number of arguments)",
             "AggregatorAsync._clear (inlined)"]
HARNESSES = [("aggregate", ag.aggregate_contract),
             ("pairing", ag.pairing_contract)]
FUZZ = [("batches", ag.fuzz_ok)]
FUZZ_S = 5
