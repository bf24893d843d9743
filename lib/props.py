"""Which suites and clauses decide which property.  n: behaviours per profile at the quick tier."""

ADD = ["add-accepted-wrongly", "add-refused-wrongly", "add-logged", "add-table", "add-frame", "add-two-orders", "add-ids",
       "add-shows", "add-amounts", "add-result", "add-orderuis"]
DEL = ["del-result", "del-strategy", "del-frame", "del-logged", "orders-from-nowhere"]

PROPS = {
    "C01": dict(runs=[dict(suite="sim", profiles=[("mixed", 64), ("deep", 32)],
                           clauses=["ledger", "pay-out", "pay-linked", "frame-balance", "log-sums", "route-unknown-order"])]),
    "C02": dict(runs=[dict(suite="sim", profiles=[("mixed", 48), ("deep", 48)],
                           clauses=["frame-static", "frame-capacity", "frame-balance", "pay-linked", "pay-out", "links-intact",
                                    "balance-bounds", "route-unknown-order", "add-frame", "del-frame"])]),
    "C03": dict(runs=[dict(suite="sim", profiles=[("mixed", 64), ("crowd-exact", 32)],
                           clauses=["fill-off-curve", "fill-price-range", "balance-bounds", "marginal-price"])]),
    "C04": dict(runs=[dict(suite="sim", profiles=[("mixed", 64), ("alpha", 32), ("crowd-alpha", 32)],
                           clauses=["fill-incomplete", "fill-too-much", "trade-beyond-liquidity", "trade-refused-wrongly",
                                    "balance-bounds"])]),
    "C05": dict(runs=[dict(suite="sim", profiles=[("exact", 72), ("crowd-exact", 72)],
                           clauses=["split-not-optimal", "fill-incomplete", "fill-off-curve", "route-not-eligible",
                                    "trade-refused-wrongly"])]),
    "C06": dict(runs=[dict(suite="sim", profiles=[("fast", 72), ("crowd-fast", 72)],
                           clauses=["fast-not-ranked", "fast-not-greedy", "fast-skips-better", "fill-incomplete", "fill-too-much",
                                    "fill-off-curve", "trade-refused-wrongly", "trade-beyond-liquidity"])]),
    "C07": dict(runs=[dict(suite="sim", profiles=[("alpha", 72), ("crowd-alpha", 72)],
                           clauses=["alpha-too-many", "alpha-not-optimal", "split-not-optimal", "fill-incomplete", "fill-too-much",
                                    "fill-off-curve", "trade-refused-wrongly", "trade-beyond-liquidity"])]),
    "C08": dict(runs=[dict(suite="sim", profiles=[("quote", 64), ("create", 32)],
                           clauses=["refused-silently", "refused-changed-book", "refused-logged", "quote-changed-book", "quote-executed", "quote-differs",
                                    "add-refused-changed-book", "add-logged", "report-changed-state"])]),
    "C09": dict(runs=[dict(suite="sim", profiles=[("limit", 96)],
                           clauses=["limit-execution", "log-limitfail", "quote-executed", "trade-refused-wrongly",
                                    "quote-changed-book", "trade-bad-arguments"])]),
    "C10": dict(runs=[dict(suite="sim", profiles=[("mixed", 48), ("twins", 24), ("delete", 24)],
                           clauses=["route-not-eligible", "trade-without-order", "trade-bad-arguments", "route-unknown-order",
                                    "trade-refused-wrongly", "trade-beyond-liquidity"])]),
    "C11": dict(runs=[dict(suite="sim", profiles=[("quote", 48), ("mixed", 48)],
                           clauses=["log-shape", "log-exec", "log-append", "log-counter", "log-ids", "log-tokens", "log-routes",
                                    "log-sums", "log-price", "log-threshold", "log-limitfail", "refused-logged", "add-logged",
                                    "del-logged", "result-direction", "limit-execution", "quote-executed"])]),
    "C12": dict(runs=[dict(suite="sim", profiles=[("create", 112)],
                           clauses=ADD + ["links-intact", "marginal-price", "add-refused-changed-book"])]),
    "C13": dict(runs=[dict(suite="sim", profiles=[("delete", 112)],
                           clauses=DEL + ["links-intact", "ledger", "add-ids", "trade-refused-wrongly", "route-unknown-order"])]),
    "C14": dict(runs=[dict(suite="sim", profiles=[("mixed", 48), ("delete", 48)],
                           clauses=["marginal-price", "liquidity-report", "state-of-pair", "state-orderuis", "report-changed-state",
                                    "links-intact", "add-result", "add-table"])]),

    "C15": dict(runs=[dict(suite="order", profiles=[("query", 480)],
                           clauses=["p_marg_f", "p_marg_f-bounds", "p_eff_f", "p_eff_f-bounds", "yfromp_f", "dyfromp_f", "dyfromdx_f",
                                    "dyfromdx_f-bounds", "dxfromdy_f", "dxfromdy_f-bounds", "xfromy_f", "xfromy_f-bounds", "yfromx_f",
                                    "yfromx_f-bounds", "query-changed", "goalseek"])]),
    "C16": dict(runs=[dict(suite="order", profiles=[("trade", 480)],
                           clauses=["trade-refused", "refused-changed", "refused-kind", "trade-accepted", "trade-empty", "trade-result",
                                    "trade-off-curve", "trade-executed", "quote-changed", "trade-state", "bounds", "trade-frame",
                                    "linked-paid", "add-refused", "add-accepted", "add-state"])]),
    "C17": dict(runs=[dict(suite="order", profiles=[("trade", 320), ("query", 160)],
                           clauses=["to-price", "trade-refused", "trade-off-curve", "bounds", "yfromp_f", "dyfromp_f"])]),
    "C18": dict(runs=[dict(suite="order", profiles=[("build", 400), ("query", 80)],
                           clauses=["make-refused", "make-accepted", "make-state", "make-fields", "make-curve", "params", "invariant",
                                    "as-cpc", "yzABS", "share", "liq", "roundsd"])]),

    "C19": dict(runs=[dict(suite="pair", profiles=[("ask", 600)],
                           clauses=["convert", "normal-price", "convert-price", "limit", "limit-phrase", "tokens", "reverse",
                                    "pair-changed", "unknown-event"])]),
    "C20": dict(runs=[dict(suite="pair", profiles=[("make", 600)],
                           clauses=["pair-accepted-wrongly", "pair-refused-wrongly", "pair-tokens", "pair-decimals", "pair-display",
                                    "pair-changed", "tokens"])]),

    "C21": dict(runs=[dict(suite="bench", profiles=[("trade", 400)], clauses=["quote-source", "quote-target", "execute", "order-changed"])]),
    "C22": dict(runs=[dict(suite="bench", profiles=[("encode", 320)],
                           clauses=["encode-refused", "encode-liquidity", "encode-low", "encode-high", "encode-capacity", "encode-marginal",
                                    "decode-float", "decode", "reference-code", "reference", "float", "float-again", "rate", "rate-decoded"])]),
    "C23": dict(runs=[dict(suite="bench", profiles=[("match", 320)],
                           clauses=["quote", "match-types", "match-changed", "fast-orders", "fast-too-much", "fast-action", "fast-partial",
                                    "fast-ranking", "fast-skips", "fast-incomplete"])]),
    "C24": dict(runs=[dict(suite="bench", profiles=[("match", 320)],
                           clauses=["match-types", "match-changed", "best-orders", "best-too-much", "best-action", "best-incomplete",
                                    "best-not-optimal", "best-failed"])]),

    "C25": dict(runs=[dict(suite="path", profiles=[("run", 240)],
                           clauses=["run-refused", "run-accepted", "run-rescaled", "run-changed-strategy", "run-length", "run-rsk", "run-csh",
                                    "run-marginal", "run-value", "run-hodl", "run-path", "run-negative", "run-gift"])]),
    "C26": dict(runs=[dict(suite="path", profiles=[("make", 600), ("series", 48)],
                           clauses=["strategy-refused", "strategy-accepted", "strategy-fields", "strategy-original", "strategy-rescale",
                                    "strategy-tvl", "strategy-dct", "strategy-diff", "conditions"])]),
    "C27": dict(runs=[dict(suite="path", profiles=[("series", 200)],
                           clauses=["interp-changed-input", "interp-disabled", "interp-points", "interp-order", "interp-spacing", "interp-line",
                                    "vol-normal", "vol-lognormal", "gen-columns", "gen-paths", "gen-times", "gen-volatility",
                                    "read-accepted", "read-refused", "read-kind", "read-rows", "read-tokens", "read-time"])]),

    "C28": dict(runs=[dict(suite="cpc", profiles=[("curve", 600)],
                           clauses=["curve-accepted", "curve-refused", "curve-state", "curve-fields", "curve-attributes", "curve-bounds",
                                    "curve-tokens", "curve-primary", "curve-value", "curve-at-bound", "container-add"])]),
    "C29": dict(runs=[dict(suite="cpc", profiles=[("curve", 600)],
                           clauses=["execute-accepted", "execute-refused", "execute-off-curve", "execute-fields", "container-changed",
                                    "xyfromp", "dxdyfromp", "yfromx", "xfromy", "dyfromdx", "dxfromdy", "units"])]),
    "C30": dict(runs=[dict(suite="cpc", profiles=[("container", 600)],
                           clauses=["container-add", "container-changed", "container-ids", "container-tokens", "container-pairs",
                                    "container-filter", "container-price", "container-table", "container-member", "container-round-trip",
                                    "container-stats", "container-analysis", "price-estimate"])]),
    "C31": dict(runs=[dict(suite="cpc", profiles=[("arb", 320)],
                           clauses=["arbitrage-failed", "arbitrage-flows", "arbitrage-not-balanced", "arbitrage-not-optimal",
                                    "arbitrage-trades", "arbitrage-price", "arbitrage-new-curves", "simple-curves", "container-changed"])]),
    "C32": dict(runs=[dict(suite="cpc", profiles=[("arb", 320)],
                           clauses=["instructions-refused", "instructions", "instructions-total", "convex-not-balanced", "convex-result",
                                    "convex-off-curve", "convex-not-optimal"])]),
    "C33": dict(runs=[dict(suite="graph", profiles=[("look", 320), ("price", 120)],
                           clauses=["graph-shape", "graph-accepted", "graph-refused", "graph-refusal-changed", "graph-built", "graph-chain", "edge-price",
                                    "edge-names", "edge-sum", "edge-times", "edge-reverse", "edge-copy", "edges-found", "graph-copy", "copy-shared",
                                    "question-changed", "adjacency", "laplacian", "degrees", "connected", "as-graph", "edge-table", "cycle-items",
                                    "subcycles", "amounts"])]),
    "C34": dict(runs=[dict(suite="graph", profiles=[("flow", 400)],
                           clauses=["transport-accepted", "transport-refused", "transport-refusal-changed", "transport-state", "transport-out",
                                    "route-accepted", "route-refused", "route-state", "route-result", "capacity", "edge-statistics", "node-statistics",
                                    "balance-set", "graph-reset", "question-changed", "graph-copy", "copy-shared"])]),
    "C35": dict(runs=[dict(suite="graph", profiles=[("arb", 240), ("price", 240)],
                           clauses=["cycles", "cycle-ids", "cycle-run", "cycles-run", "path-price", "shortest-path", "price", "price-table",
                                    "question-changed", "connected"])]),
    "C36": dict(runs=[dict(suite="tool", profiles=[("pack", 600)],
                           clauses=['pack-accepted', 'pack-refused', 'pack-number', 'pack-value', 'pack-accuracy'])]),
    "C37": dict(runs=[dict(suite="tool", profiles=[("cells", 600)],
                           clauses=['cell-frame', 'cell-identity', 'cell-value', 'cell-refused', 'cell-accepted', 'cell-compare', 'cell-convert'])]),
    "C38": dict(runs=[dict(suite="tool", profiles=[("params", 600)],
                           clauses=['param-refused', 'param-accepted', 'param-state', 'param-frame', 'param-value', 'scale'])]),
    "C39": dict(runs=[dict(suite="tool", profiles=[("univ3", 500)],
                           clauses=['uni-accepted', 'uni-refused', 'uni-names', 'uni-price', 'uni-range', 'uni-liquidity', 'uni-reserves', 'uni-value', 'uni-curve-refused', 'uni-curve-accepted', 'uni-curve'])]),
    "C40": dict(runs=[dict(suite="tool", profiles=[("names", 600)],
                           clauses=['name-accepted', 'name-refused', 'name-tokens', 'name-primary', 'name-price', 'name-wrap', 'version', 'version-parts'])]),
    "C41": dict(runs=[dict(suite="tool", profiles=[("files", 400)],
                           clauses=['file-refused', 'file-from-nowhere', 'file-lost', 'file-content', 'file-list'])]),
    "C42": dict(runs=[dict(suite="sdk", profiles=[("client", 600)],
                           clauses=['sdk-request-count', 'sdk-request-url', 'sdk-request-token', 'sdk-request-params', 'sdk-sync-response', 'sdk-async-id', 'sdk-async-fault',
                                    'sdk-result-fault', 'sdk-result-pending', 'sdk-result-value', 'sdk-result-unknown', 'sdk-ask-both', 'sdk-ask-fault', 'sdk-answer'])]),
    "C43": dict(runs=[dict(suite="sdk", profiles=[("market", 600)],
                           clauses=['sdk-has-liquidity', 'sdk-liquidity', 'sdk-liquidity-labels', 'sdk-depth', 'sdk-depth-labels', 'sdk-range', 'sdk-range-labels', 'sdk-market', 'sdk-market-derived',
                                    'sdk-market-labels', 'sdk-market-between', 'sdk-market-refused'])]),
    "C44": dict(runs=[dict(suite="sdk", profiles=[("market", 600)],
                           clauses=['sdk-create', 'sdk-create-overlap', 'sdk-trade-accepted', 'sdk-trade-refused', 'sdk-trade-direction', 'sdk-trade-request', 'sdk-trade-data', 'sdk-request-count', 'sdk-compose',
                                    'sdk-strategies', 'sdk-strategies-refused', 'sdk-strategy-id', 'sdk-strategy-tokens', 'sdk-strategy-numbers', 'sdk-strategy-orders', 'sdk-strategy-raw'])]),
    "C45": dict(runs=[dict(suite="sdk", profiles=[("encode", 600)],
                           clauses=['sdk-encode-both', 'sdk-encode-refused', 'sdk-encode-amounts', 'sdk-encode-capacity', 'sdk-encode-token', 'sdk-encode-curve', 'sdk-decode', 'sdk-decode-prices', 'sdk-marginal',
                                    'sdk-float-encode', 'sdk-float-decode', 'sdk-float-accuracy', 'sdk-rate-encode'])]),
    "C46": dict(runs=[dict(suite="sdk", profiles=[("tokens", 600)],
                           clauses=['sdk-token-ambiguous', 'sdk-token-lookup', 'sdk-token-missing', 'sdk-token-contains', 'sdk-token-restore', 'sdk-token-list', 'sdk-token-address', 'sdk-token-fields', 'sdk-token-wei'])]),
    "C47": dict(runs=[dict(suite="sdk", profiles=[("strategy", 500)],
                           clauses=['sdk-import-mismatch', 'sdk-import-refused', 'sdk-import-tokens', 'sdk-import-prices', 'sdk-import-amounts', 'sdk-import-ids', 'sdk-import-count'])]),
    "C48": dict(runs=[dict(suite="ana", profiles=[("book", 240), ("probe", 16)],
                           clauses=['book-accepted', 'book-refused', 'book-amounts', 'book-prices', 'book-steps', 'book-marginal', 'book-midpoints', 'book-price-steps', 'book-ob-prices', 'book-liquidity', 'book-chart', 'book-units',
                                    'vec-midpoints', 'vec-diff', 'vec-truncate', 'vec-dot', 'vec-linspace', 'vec-unknown'])]),
    "C49": dict(runs=[dict(suite="ana", profiles=[("probe", 56), ("probe-crowd", 16)],
                           clauses=['probe-changed-book', 'price-accepted', 'price-refused', 'price-none', 'price-beyond-liquidity', 'price-value', 'quote-accepted', 'quote-refused', 'quote-none', 'quote-value', 'depth-quotes'])]),
    "C50": dict(runs=[dict(suite="ana", profiles=[("approx", 160)],
                           clauses=['probe-changed-book', 'approx-ask', 'approx-bid', 'approx-prices', 'approx-units', 'approx-plot'])]),
    "C51": dict(runs=[dict(suite="cc", profiles=[("cache", 500)],
                           clauses=['cc-cache-asks', 'cc-cache-silent', 'cc-request', 'cc-cache-result', 'cc-cache-content', 'cc-query-result'])]),
    "C52": dict(runs=[dict(suite="cc", profiles=[("history", 400)],
                           clauses=['cc-request', 'cc-timestamp', 'cc-history', 'cc-tables', 'cc-pairs', 'cc-names'])]),
    "C53": dict(runs=[dict(suite="form", profiles=[("controls", 240)],
                           clauses=['form-accepted', 'form-refused', 'form-values', 'form-objects', 'form-shown', 'form-range', 'form-display'])]),
    "C54": dict(runs=[dict(suite="form", profiles=[("guard", 240)], clauses=['guard-level', 'guard-message', 'guard-value'])]),
    "C55": dict(runs=[dict(suite="book", profiles=[("orders", 300)], clauses=['order-accepted', 'order-refused', 'order-range', 'order-amounts', 'order-shape', 'order-position'])]),
    "C56": dict(runs=[dict(suite="book", profiles=[("files", 110)], clauses=['file-refused', 'file-count', 'file-order', 'file-map', 'route-refused', 'route-total', 'route-order', 'route-curve'])]),
}
