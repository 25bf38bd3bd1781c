"""Tagged integers: how observations are handed to TLC (whose integers are
32-bit): <<0,0>> not-a-number, <<1,v>> the integer v, <<2,0>> absent (None),
<<3,k>> a number that is not (close to) an integer, <<4,k>> a degenerate
moment, in thousandths."""
import math

LIM = 2 ** 31 - 1


def tagged(x, scale=1, tol=1e-3):
    if x is None:
        return [2, 0]
    try:
        x = float(x)
    except (TypeError, ValueError):
        return [2, 1]
    if math.isnan(x):
        return [0, 0]
    if math.isinf(x):
        return [3, 1 if x > 0 else -1]
    y = x * scale
    k = round(y)
    if abs(y - k) > tol + 1e-8 * abs(y):
        return [3, int(max(-LIM, min(LIM, math.floor(y))))]
    if abs(k) > LIM:
        return [3, LIM if k > 0 else -LIM]
    return [1, int(k)]


def J(x):
    return x
