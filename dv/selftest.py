"""The obligation engine accepts what is true and refutes what is not."""
from . import job


def main():
    job.setup()
    from . import ctx, engine, patch, terms as T
    eng = engine.Engine()
    out = []

    def h():
        c = ctx.SymCtx(eng)
        c.steps()
        x, y = c.num('x', -10, 10), c.num('y', 0, 10)
        a = c.angle('a', 0, 90)
        out[:] = [
            (c.eq('square', (x + y) ** 2, x * x + 2 * x * y + y * y), True),
            (c.eq('trig', c.M.cosd(a) ** 2 + c.M.sind(a) ** 2, 1), True),
            (c.eq('shift', c.M.cosd(a + 90), -c.M.sind(a)), True),
            (c.le('sos', 2 * x * y, x * x + y * y), True),
            (c.le('abs', x, abs(x)), True),
            (c.le('wrong', 0, x), False),
            (c.eq('wrong trig', c.M.cosd(a), c.M.sind(a)), False),
            (c.le('wrong strict', x * x + y * y, 2 * x * y), False)]
    with patch.Symbolic():
        eng.run(h)
    bad = [o for o, (got, want) in zip(eng.obligations, out)
           if bool(got) != want]
    for b in bad:
        print('engine self-test failed:', b['name'], b['status'])
    print('engine self-test: %d judgements, %d wrong' % (len(out), len(bad)))
    return 1 if bad or len(out) != 8 else 0
