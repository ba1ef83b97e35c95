"""Small helpers around the public API of snuba_sdk."""
from __future__ import annotations

from datetime import datetime

import snuba_sdk
from snuba_sdk.metrics_query import MetricsQuery
from snuba_sdk.timeseries import MetricsScope, Rollup

START = datetime(2023, 1, 2, 3, 4, 5)
END = datetime(2023, 1, 16, 3, 4, 5)


def metrics_query(query, **kw):
    d = dict(query=query, start=START, end=END, rollup=Rollup(interval=3600, granularity=3600),
             scope=MetricsScope(org_ids=[1], project_ids=[11], use_case_id="transactions"), indexer_mappings={})
    d.update(kw)
    return MetricsQuery(**d)


def is_sdk_error(e):
    return type(e).__module__.split(".")[0] == "snuba_sdk"


def outcome(f, *a, **k):
    """('ok', value) | ('err', exception)"""
    try:
        return ("ok", f(*a, **k))
    except Exception as e:
        return ("err", e)
