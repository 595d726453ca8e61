from vt.limits_engine import configuration_case, real_delivery_case, toy_delivery_case
from vt.runner import Family

LEVEL = "exploration"
RULE = (
    "each execution configures one per-session limit against a table of per-message limits, or delivers one chain in some "
    "order under one configuration; distinct: the limits and the delivery order with its expected outcomes"
)
ASSUMPTIONS = ["limits are non-negative integers"]
FAMILIES = [
    Family("configuration", configuration_case, 120, 3000, need=("accepted", "rejected")),
    Family("toy", toy_delivery_case, 600, 20000, need=("delivered_ok", "delivered_gone", "delivered_too_many")),
    Family("real", real_delivery_case, 40, 1000, need=("delivered_ok", "delivered_gone", "delivered_too_many")),
]
