"""C17: the plain window."""
import flow
from C16 import Win, random_stream


def case(R, n, stride):
    dim = R.choice([1, 2, 3])
    s = random_stream(R, n, dim)
    if R.random() < .5: s = [[(7 * i) % 41] + [i // 41] * (dim - 1) for i in range(n)]      # every point different
    return Win(50, R.choice([1, 2, 2, 3]), R.choice([1, 1, 2]), s, stride, 'NAIVE')


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_win')
    ck.design('MC_NaiveWindow', 'MC_NaiveWindow.cfg', 'window of 3, report every 4: all streams', consts={'MaxLen': '15' if big else '12'})
    items = [case(R, 215, 1 if big else 3)]
    for n in [0, 1, 2, 48, 49, 50, 51, 52, 98, 99, 100, 101, 102, 149, 150, 199, 200, 201, 300, 301]:
        items.append(case(R, n, 997))
    items += [case(R, R.randint(0, 420), R.choice([997, 50, 61])) for _ in range(600 if big else 60)]
    # streams of many windows
    items += [case(R, n, 997) for n in ([1049, 1100, 1230, 1549, 2050] if big else [1049, 1230])]
    # repeated points within and across windows
    for n in (120, 230):
        items.append(Win(50, 2, 1, [[i % 5] for i in range(n)], 20, 'NAIVE'))
    flow.judge(ck, 'drv_win', items, Win.line, Win.trace, 'NaiveWindowTrace', 'NaiveWindowTrace.cfg', show=Win.show, what='plain window', timeout=60)
