"""matchBest as it stands on the unchanged tree, in terms of the code's own quotes, trades and equalisation. Its known
failures (known-findings.txt, C24) are the events where the code still does exactly this."""
from core.match.impl import getLimit, Action


def matchBest(amount, orders, quotes, filter, trade, equalize):
    orders = [orders[quote.id] for quote in quotes] + [{k: 0 for k in 'yzAB'}]

    for n in range(1, len(orders)):
        limit = getLimit(orders[n])
        rates = [trade(equalize(order, limit), order) for order in orders[:n]]
        total = sum(rate.input for rate in rates)
        delta = total - amount
        if delta >= 0:
            break

    if delta > 0:
        lo = limit
        hi = getLimit(orders[n - 1])
        while lo + 1 < hi:
            limit = (lo + hi) // 2
            rates = [trade(equalize(order, limit), order) for order in orders[:n]]
            total = sum(rate.input for rate in rates)
            delta = total - amount
            if delta > 0:
                lo = limit
            elif delta < 0:
                hi = limit
            else: # delta == 0
                break

    if delta > 0:
        for i in reversed(range(len(rates))):
            rate = trade(rates[i].input - delta, orders[i])
            delta += rate.input - rates[i].input
            rates[i] = rate
            if delta <= 0:
                break
    elif delta < 0:
        for i in range(len(rates)):
            rate = trade(rates[i].input - delta, orders[i])
            delta += rate.input - rates[i].input
            if delta > 0:
                break
            rates[i] = rate

    return [Action(quotes[i].id, rates[i].input, rates[i].output) for i in range(len(rates)) if filter(rates[i])]


def run(m, name, amount, orders, flt):
    """the outcome of the code under test's matchBy with this matchBest in place of its own"""
    t = name == "matchByTargetAmount"
    trade, sort, eq = (m.rateByTargetAmount, m.sortByMaxRate, m.equalizeByTargetAmount) if t else (m.rateBySourceAmount, m.sortByMinRate, m.equalizeBySourceAmount)
    return matchBest(amount, orders, m.sortedQuotes(amount, orders, trade, sort), flt, trade, eq)
