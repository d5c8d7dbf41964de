"""Monitors of the Python reference pool (programs/hmmcl-sandbox/src/cl_python/v3_pool.py).

usage: pymon.py check C31|C32 quick|thorough     run scenarios, write evidence, print VIOLATION lines
       pymon.py replay FILE                      run one recorded scenario again
       pymon.py explore C31|C32 N [SEED]         run N scenarios and print the counters

The real file is compiled from /repo on every run. A scenario is a pure function of (VERIF_SEED, index). The
oracles are written here from the list of positions alone, in 40-digit decimals."""
import contextlib
import copy
import io
import json
import math
import os
import random
import re
import signal
import sys
import time
import types
from decimal import Decimal as D, getcontext
from multiprocessing import Process, Queue

getcontext().prec = 40
getcontext().Emax = 999999
getcontext().Emin = -999999

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYMON_REPO", "/repo")
SRC = REPO + "/programs/hmmcl-sandbox/src/cl_python/v3_pool.py"

BASE = D("1.0001")
_rp = {}


def rp_exact(t):
    """exact root price of a tick"""
    w = BASE ** (t // 2)
    return w * BASE.sqrt() if t % 2 else w


def rp(t):
    """root price of a tick as the pool has it (C32 compares it with the exact one)"""
    if t not in _rp:
        _rp[t] = D(sys.modules["v3_pool"].Pool.tick_to_rP(t))
    return _rp[t]


def load():
    m = types.ModuleType("v3_pool")
    m.__file__ = SRC
    sys.modules["v3_pool"] = m
    with open(SRC) as f:
        exec(compile(f.read(), SRC, "exec"), m.__dict__)
    return m


class Violation(Exception):
    pass


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


class Mon:
    def __init__(self):
        self.n = {}
        self.ext = {}
        self.states = set()

    def hit(self, k, c=1):
        self.n[k] = self.n.get(k, 0) + c

    def ok(self, cond, what, detail=""):
        self.hit(what)
        if not cond:
            raise Violation(f"{what}: {detail() if callable(detail) else detail}")

    def near(self, got, want, tol, what, detail=""):
        self.hit(what)
        e = abs(D(got) - want)
        if tol > 0:
            r = float(e / tol)
            k = what + " err/tol"
            if r > self.ext.get(k, -1.0):
                self.ext[k] = r
        if not e <= tol:
            raise Violation(
                f"{what}: got {got} expected {float(want)} tolerance {float(tol)} "
                f"{detail() if callable(detail) else detail}"
            )


# ----------------------------------------------------------------------------------------------------------
# oracle


def amounts(liq, p, lo, up):
    """what liq over [lo, up) is worth at root price p"""
    a, b = rp(lo), rp(up)
    q = min(max(p, a), b)
    return liq * (1 / q - 1 / b), liq * (q - a)


def lnq(v):
    return v.ln()


def powq(v, e):
    if e == int(e):
        return v ** int(e)
    return (v.ln() * e).exp()


def out_y(L, p0, p1, c, o):
    """Y paid out when the root price falls from p0 to p1: (plain, adjusted)"""
    plain = L * (p0 - p1)
    if o is None or c == 0 or o >= p0:
        return plain, plain
    e = max(o, p1)
    if c == 1:
        h = L * o * lnq(p0 / e)
    else:
        h = L * powq(o, c) * (powq(p0, 1 - c) - powq(e, 1 - c)) / (1 - c)
    return plain, h + L * (e - p1)


def out_x(L, p0, p1, c, o):
    """X paid out when the root price rises from p0 to p1: (plain, adjusted)"""
    plain = L * (1 / p0 - 1 / p1)
    if o is None or c == 0 or o <= p0:
        return plain, plain
    e = min(o, p1)
    if c == 1:
        h = L / o * lnq(e / p0)
    else:
        h = L / powq(o, c) * (powq(e, c - 1) - powq(p0, c - 1)) / (c - 1)
    return plain, h + L * (1 / e - 1 / p1)


class Ref:
    """result of a swap computed from positions, price and tick only"""

    def __init__(self, pos, tick, p, x_in, amount, fee, c, o):
        net = {}
        for (u, lo, up), q in pos.items():
            net[lo] = net.get(lo, D(0)) + q
            net[up] = net.get(up, D(0)) - q
        ticks = sorted({t for k in pos for t in k[1:]})
        self.segs = []  # (lower tick index of the segment, L, in net, fee, out plain, out adjusted, p0, p1)
        self.paid = D(0)
        self.fee = D(0)
        self.out = D(0)
        self.plain = D(0)
        self.scale_x = D(0)  # rounding scales
        self.scale_y = D(0)
        self.full = False
        self.crossed = 0
        self.gaps = 0
        self.at_oracle = False
        rem = amount
        omf = 1 - fee
        cur = [t for t in ticks if t <= tick]
        L = sum((net[t] for t in cur), D(0))
        # boundaries ahead, nearest first
        ahead = sorted(cur, reverse=True) if x_in else [t for t in ticks if t > tick]
        while rem > 0:
            if not ahead:
                break
            b = ahead[0]
            if L == 0:
                # nothing to trade against up to b
                p = rp(b)
                self.gaps += 1
            else:
                g = rp(b)
                cap = L * (1 / g - 1 / p) if x_in else L * (g - p)
                if cap < 0:
                    cap = D(0)
                self.scale_x += L / min(p, g)
                self.scale_y += L * max(p, g)
                take = rem * omf
                if cap < take:
                    din, p1, whole = cap, g, False
                    f = din / omf * fee
                else:
                    din, whole = take, True
                    f = rem - take
                    p1 = 1 / (din / L + 1 / p) if x_in else p + din / L
                plain, adj = (out_y if x_in else out_x)(L, p, p1, c, o)
                if o is not None and (p1 < o < p or p < o < p1):
                    self.at_oracle = True
                inside = [k for k in pos if (k[1] < b <= k[2] if not x_in else k[1] <= b < k[2])]
                self.segs.append((inside, L, din, f, plain, adj, p, p1))
                self.paid += din + f
                self.fee += f
                self.out += adj
                self.plain += plain
                p = p1
                if whole:
                    self.full = True
                    break
                rem -= din + f
            # cross b
            self.crossed += 1
            L += -net[b] if x_in else net[b]
            ahead.pop(0)
        self.p = p
        if rem <= 0:
            self.full = True


# ----------------------------------------------------------------------------------------------------------
# histories


class Pend:
    __slots__ = ("xf", "yf", "xh", "yh")

    def __init__(self):
        self.xf = self.yf = self.xh = self.yh = D(0)


POTS = ("X_fee", "Y_fee", "X_adj", "Y_adj")


class Hist:
    def __init__(self, mod, mon, rng, trace):
        self.mod, self.m, self.r, self.trace = mod, mon, rng, trace
        r = rng
        t0 = r.choice([0, r.randint(-200, 200), r.randint(-5000, 5000), r.randint(0, 80000), r.randint(-60000, 60000)])
        p0 = float(rp(t0)) * (1 + r.choice([0.0, 1e-5, 3e-5, r.random() * 5e-5]))
        self.spacing = r.choice([1, 1, 1, 2, 10, 30, 100, r.randint(3, 200)])
        self.c = r.choice([0.0, 0.0, 0.5, 1.0, 1.0, 1.25, 1.5, 2.0])
        self.fee = r.choice([0.0, 0.0005, 0.003, 0.003, 0.01, 0.05, 0.3, r.random() * 0.2, r.choice([r.random() * 0.2, r.uniform(0.2, 0.95)])])
        self.pool = self.quiet(lambda: mod.Pool("ETH", 18, "USDC", 6, p0, tick_spacing=self.spacing, hmm_C=self.c, fee_rate=self.fee))
        self.t0 = t0
        self.width = r.choice([1, 2, 5, 20, 100, 400, 2000, 8000])
        self.scale = 10 ** r.uniform(1, 7)
        self.users = ["alice", "bob", "carol", "dave"][: r.randint(1, 4)]
        trace.append(f"pool rP={p0!r} spacing={self.spacing} C={self.c} fee={self.fee!r} L~{self.scale:.3g} width~{self.width}")
        self.pos = {}
        self.pend = {}
        self.dust_x = D(0)
        self.dust_y = D(0)
        self.out_x = D(0)
        self.out_y = D(0)
        self.fgmax = dict.fromkeys(POTS, D(0))
        g = self.pool.global_state
        want = self.floor_sp(self.tick_of(p0, mod.Pool))
        mon.ok(g.tick == want and g.rP == mod.Pool.tick_to_rP(want), "new pool starts on the allowed tick at or below its price", lambda: f"{g} for {p0}")
        mon.ok(
            not self.pool.active_ticks and not self.pool.positions and g.L == 0
            and all(getattr(self.pool, a) == 0 for a in ("X", "Y") + POTS),
            "new pool is empty",
        )

    # -- helpers
    def quiet(self, f):
        self.text = io.StringIO()
        signal.alarm(20)
        try:
            with contextlib.redirect_stdout(self.text):
                return f()
        finally:
            signal.alarm(0)

    def floor_sp(self, t):
        return t // self.spacing * self.spacing

    @staticmethod
    def tick_of(p, pool):
        """the tick whose own root price is the last at or below p"""
        t = math.floor(math.log(p) / math.log(1.0001) * 2)
        while pool.tick_to_rP(t) > p:
            t -= 1
        while pool.tick_to_rP(t + 1) <= p:
            t += 1
        return t

    def clone(self, pool=None):
        return copy.deepcopy(pool or self.pool)

    def freeze(self, pool=None):
        p = pool or self.pool
        g = p.global_state
        return (
            tuple(sorted((k, v.liq, v.fr_x, v.fr_y, v.hr_x, v.hr_y) for k, v in p.positions.items())),
            tuple(sorted((k, v.liq_net, v.liq_gross, v.f0_x, v.f0_y, v.h0_x, v.h0_y) for k, v in p.active_ticks.items())),
            (g.L, g.rP, g.tick, g.fg_x, g.fg_y, g.hg_x, g.hg_y),
            (p.X, p.Y, p.X_fee, p.Y_fee, p.X_adj, p.Y_adj),
        )

    def attempt(self, f, what, excuse=None):
        """run an operation the user is entitled to; a refusal is a violation, except one of an amount that
        cannot be told from the limit by rounding (excuse)"""
        try:
            v = self.quiet(f)
        except Hang:
            raise Violation(f"{what} terminates: still running after 20 s")
        except Exception as e:
            if excuse and excuse():
                return None
            raise Violation(f"{what} is accepted: refused with {type(e).__name__} {str(e)[:200]}")
        self.m.hit(f"{what} is accepted")
        return v

    def refused(self, f, what):
        before = self.freeze()
        keep = self.clone()
        try:
            self.quiet(f)
        except Hang:
            raise Violation(f"invalid {what} terminates")
        except Exception:
            self.m.hit(f"refused: {what}")
            self.m.ok(self.freeze() == before, "a refused operation changes nothing", what)
            return
        self.pool = keep
        raise Violation(f"invalid operation is refused: {what} was accepted")

    # -- state monitors
    def total(self):
        return sum(self.pos.values(), D(0))

    def judge(self):
        m, p = self.m, self.pool
        g = p.global_state
        got = {k: D(v.liq) for k, v in p.positions.items()}
        m.ok(got == self.pos, "positions are what their owners deposited less what they withdrew", lambda: f"{got} expected {self.pos}")
        net, gross = {}, {}
        for (u, lo, up), q in self.pos.items():
            net[lo] = net.get(lo, D(0)) + q
            net[up] = net.get(up, D(0)) - q
            gross[lo] = gross.get(lo, D(0)) + q
            gross[up] = gross.get(up, D(0)) + q
        m.ok(set(p.active_ticks) == set(gross), "active ticks are the bounds of the positions", lambda: f"{sorted(p.active_ticks)} expected {sorted(gross)}")
        for t, s in p.active_ticks.items():
            m.ok(D(s.liq_net) == net[t] and D(s.liq_gross) == gross[t], "tick liquidity is the sum of the positions", lambda: f"{t}: {s} expected {net[t]} {gross[t]}")
        act = sum((q for (u, lo, up), q in self.pos.items() if lo <= g.tick < up), D(0))
        m.ok(D(g.L) == act, "active liquidity is the sum of the positions in range", lambda: f"{g.L} expected {act} at tick {g.tick}")
        # price within the interval of the tick, no active tick strictly in between
        pr = g.rP
        lowp = self.mod.Pool.tick_to_rP(g.tick)
        m.ok(lowp <= pr * (1 + 4e-16), "price is not below the current tick", lambda: f"tick {g.tick} rP {pr!r} tick's {lowp!r}")
        above = [t for t in self.edges() if t > g.tick]
        if above:
            up = self.mod.Pool.tick_to_rP(min(above))
            m.ok(pr <= up * (1 + 4e-16), "no active tick between the current tick and the price", lambda: f"tick {g.tick} rP {pr!r} active tick {min(above)}")
        hi = self.mod.Pool.tick_to_rP(self.floor_sp(g.tick) + self.spacing)
        m.ok(pr <= hi * (1 + 4e-16), "price is inside the interval of the current tick", lambda: f"tick {g.tick} rP {pr!r}")
        # reserves and pots
        q = D(pr)
        vx = vy = D(0)
        for (u, lo, up), l in self.pos.items():
            a, b = amounts(l, q, lo, up)
            vx += a
            vy += b
        dx, dy = self.dust_x + D("1e-300"), self.dust_y + D("1e-300")
        for nm, have, owe, dust, over in (("X", p.X, vx, dx, self.out_x), ("Y", p.Y, vy, dy, self.out_y)):
            m.ok(D(have) >= owe - dust, f"reserve {nm} covers all positions", lambda: f"{have!r} owed {float(owe)!r} dust {float(dust)!r}")
            m.ok(D(have) <= owe + dust + D("2e-12") * over, f"reserve {nm} is not more than the positions", lambda: f"{have!r} owed {float(owe)!r} dust {float(dust)!r}")
            e = float(abs(D(have) - owe) / (dust + D("2e-12") * over))
            m.ext["reserve err/dust"] = max(m.ext.get("reserve err/dust", 0.0), e)
        for pot in POTS:
            owed = sum((getattr(w, self.slot(pot)) for w in self.pend.values()), D(0))
            have = D(getattr(p, pot))
            tol = self.pot_tol(pot)
            m.ok(abs(have - owed) <= tol, f"pot {pot} is what the positions are still owed", lambda: f"{float(have)!r} owed {float(owed)!r} tol {float(tol)!r}")
        m.states.add(hash(self.freeze()[2:]))

    def edges(self):
        return {t for k in self.pos for t in k[1:]}

    @staticmethod
    def slot(pot):
        return {"X_fee": "xf", "Y_fee": "yf", "X_adj": "xh", "Y_adj": "yh"}[pot]

    def pot_tol(self, pot):
        # rounding of growth per unit (relative to the largest growth so far) times all liquidity, and of the pot
        return (self.fgmax[pot] * (self.maxtotal + 1) * D("1e-14")) + self.potsum[pot] * D("3e-12") + self.adj_tol(pot)

    def adj_tol(self, pot):
        # an adjustment is a difference of two outputs, its rounding is that of the outputs
        return {"X_adj": self.dust_x, "Y_adj": self.dust_y, "X_fee": self.dust_x, "Y_fee": self.dust_y}[pot]

    def add_dust(self, segs_x, segs_y):
        self.dust_x += D("4e-15") * segs_x
        self.dust_y += D("4e-15") * segs_y

    def op_dust(self):
        # additions to the reserves and positions priced at a rounded root price
        p, q = self.pool, D(self.pool.global_state.rP)
        t = self.total() + 1
        self.dust_x += D("1e-15") * (t / q + D(abs(p.X)))
        self.dust_y += D("1e-15") * (t * q + D(abs(p.Y)))

    # -- operations
    def pick_range(self):
        r = self.r
        t = self.pool.global_state.tick
        e = sorted(self.edges())
        k = r.random()
        if k < 0.2 and len(e) >= 2:
            lo, up = sorted(r.sample(e, 2))
        elif k < 0.35 and e:
            a = r.choice(e)
            w = max(1, int(r.expovariate(1 / (self.width + 1))))
            lo, up = (a - w, a) if r.random() < 0.5 else (a, a + w)
        else:
            w = max(1, int(r.expovariate(1 / (self.width + 1))))
            d = int(r.gauss(0, self.width))
            lo = t - w // 2 + d * r.choice([0, 0, 1, 2])
            up = lo + w
        lo, up = self.floor_sp(lo), self.floor_sp(up)
        if lo >= up:
            up = lo + self.spacing * r.randint(1, 3)
        return lo, up

    def bound(self, t):
        """a root price that belongs to allowed tick t"""
        P = self.mod.Pool
        f = self.r.random()
        if f < 0.5:
            return P.tick_to_rP(t)
        hi = P.tick_to_rP(t + self.spacing)
        if f < 0.6:
            return math.nextafter(hi, 0)
        return P.tick_to_rP(t) + (hi - P.tick_to_rP(t)) * self.r.random() * 0.999

    def settle(self, key, before, what):
        """pots fall by exactly what the position was owed"""
        w = self.pend.get(key)
        liq = self.pos.get(key, D(0))
        for pot in POTS:
            owed = getattr(w, self.slot(pot)) if w else D(0)
            took = D(before[pot]) - D(getattr(self.pool, pot))
            tol = (
                liq * self.fgmax[pot] * D("2e-14")
                + owed * D("1e-11")
                + abs(D(before[pot])) * D("4e-16")
                + (self.adj_tol(pot) * min(D(1), liq / (self.maxtotal + 1)) * 4)
            )
            self.m.near(took, owed, tol, "a position is paid exactly its share, once" if w else "a new position is paid nothing", lambda: f"{pot} {what} {key}")
            if owed > tol * 10:
                self.m.hit("material claims")
        self.last_claim = {pot: D(before[pot]) - D(getattr(self.pool, pot)) for pot in POTS}

    def printed(self, a, b, px, py, what):
        """the amounts reported are the amounts the state changed by"""
        s = self.text.getvalue()
        for nm, want, tol in ((a, px, self.dust_x), (b, py, self.dust_y)):
            g = re.search(nm + r"\s*[=:]\s*(-?[0-9][0-9.e+-]*)", s)
            if not g:
                continue
            self.m.near(float(g.group(1)), want, tol + abs(want) * D("1e-12"), "reported amounts are what the state changed by", lambda: f"{nm} {what}")

    def snap(self):
        p = self.pool
        return {k: getattr(p, k) for k in ("X", "Y") + POTS} | {"rP": p.global_state.rP, "tick": p.global_state.tick, "L": p.global_state.L}

    def deposit(self):
        r, P = self.r, self.mod.Pool
        lo, up = self.pick_range()
        p = D(self.pool.global_state.rP)
        target = D(max(1.0, self.scale * 10 ** r.uniform(-1.5, 1.0)))
        if self.pos and r.random() < 0.25:
            # as much liquidity as another position has, and often right beside it
            twin = r.choice(sorted(self.pos))
            target = self.pos[twin] + D("1e-7")
            if r.random() < 0.5:
                w = up - lo
                lo, up = (twin[2], twin[2] + w) if r.random() < 0.5 else (twin[1] - w, twin[1])
        x, y = amounts(target, p, lo, up)
        k = r.random()
        x = float(x) * r.choice([1.0, 1.0, 1.3, r.random() * 2])
        y = float(y) * r.choice([1.0, 1.0, 1.3, r.random() * 2])
        if k < 0.03:
            x = y = 0.0
        elif k < 0.06:
            x *= 1e-9
            y *= 1e-9
        u = r.choice(self.users)
        a, b = self.bound(lo), self.bound(up)
        key = (u, lo, up)
        self.trace.append(f"deposit {u} x={x!r} y={y!r} rPa={a!r} rPb={b!r} (ticks {lo},{up})")
        s = self.snap()
        others = self.payouts(exclude=key)
        best = self.best(x, y, p, lo, up)
        keep = self.clone()
        if self.attempt(lambda: (self.pool.deposit(u, x, y, a, b),), "a deposit", lambda: abs(best[0] - round(best[0])) <= best[1]) is None:
            self.pool = keep
            self.m.hit("refused deposits priced by rounding")
            return
        self.op_dust()
        self.m.ok(self.pool.global_state.rP == s["rP"] and self.pool.global_state.tick == s["tick"], "a deposit keeps the price")
        old = self.pos.get(key, D(0))
        new = D(self.pool.positions[key].liq) if key in self.pool.positions else D(0)
        liq = new - old
        # the most the offer allows, in whole units
        best, fl = best
        self.m.ok(math.floor(best - fl) <= liq <= math.floor(best + fl), "a deposit credits the most the offer allows", lambda: f"{liq} best {float(best)!r}")
        self.settle(key, s, "deposit")
        if liq > 0:
            self.pos[key] = new
            self.pend[key] = Pend()
        elif key in self.pend:
            self.pend[key] = Pend()
        self.maxtotal = max(self.maxtotal, self.total())
        vx, vy = amounts(liq, p, lo, up)
        self.op_dust()
        q = min(max(p, rp(lo)), rp(up))
        tx = D("1e-15") * (D(abs(s["X"])) + liq / q * 4)
        ty = D("1e-15") * (D(abs(s["Y"])) + liq * q * 4)
        self.m.near(D(self.pool.X) - D(s["X"]), vx, tx, "a deposit adds what its liquidity is worth")
        self.m.near(D(self.pool.Y) - D(s["Y"]), vy, ty, "a deposit adds what its liquidity is worth")
        c = self.last_claim
        self.m.ok(D(self.pool.X) - D(s["X"]) <= D(x) + tx and D(self.pool.Y) - D(s["Y"]) <= D(y) + ty, "a deposit takes no more than offered")
        self.printed("x_debited", "y_debited", vx - c["X_fee"] - c["X_adj"], vy - c["Y_fee"] - c["Y_adj"], "deposit")
        self.judge()
        self.unaffected(others, "deposit")
        if liq > 0 and r.random() < 0.3:
            # out again at once
            q = self.clone()
            b4 = (q.X, q.Y)
            save, self.pool = self.pool, q
            self.attempt(lambda: q.withdraw(u, float(liq), a, b), "a withdrawal")
            self.pool = save
            self.m.ok(D(b4[0]) - D(q.X) <= vx + tx and D(b4[1]) - D(q.Y) <= vy + ty, "deposit and withdrawal at once does not profit")
            self.m.ok(D(b4[0]) - D(q.X) >= vx - tx and D(b4[1]) - D(q.Y) >= vy - ty, "deposit and withdrawal at once loses only rounding")
            self.m.ok({k: D(v.liq) for k, v in q.positions.items()} == {k: v - (liq if k == key else 0) for k, v in self.pos.items() if not (k == key and v == liq)}, "deposit and withdrawal at once restores the positions")

    @staticmethod
    def best(x, y, p, lo, up):
        """liquidity an offer is good for, and its rounding"""
        best = []
        ra, rb = rp(lo), rp(up)
        q = min(max(p, ra), rb)
        if q < rb:
            best.append(D(x) / (1 / q - 1 / rb))
        if q > ra:
            best.append(D(y) / (q - ra))
        best = min(best)
        cond = 1 + 4 * max(q / (rb - q) if q < rb else 0, q / (q - ra) if q > ra else 0)
        return best, best * cond * D("1e-15")

    def withdraw(self):
        r = self.r
        if not self.pos:
            return
        key = r.choice(sorted(self.pos))
        u, lo, up = key
        full = self.pos[key]
        liq = full if r.random() < 0.5 else D(r.randint(0, int(full)))
        if r.random() < 0.05:
            liq = D(0)
        a, b = self.bound(lo), self.bound(up)
        self.trace.append(f"withdraw {u} liq={liq} rPa={a!r} rPb={b!r} (ticks {lo},{up} of {full})")
        s = self.snap()
        p = D(s["rP"])
        others = self.payouts(exclude=key)
        arg = int(liq) if r.random() < 0.5 else float(liq)
        self.attempt(lambda: self.pool.withdraw(u, arg, a, b), "a withdrawal")
        self.op_dust()
        self.m.ok(self.pool.global_state.rP == s["rP"] and self.pool.global_state.tick == s["tick"], "a withdrawal keeps the price")
        self.settle(key, s, "withdraw")
        if liq == full:
            del self.pos[key], self.pend[key]
            self.m.hit("whole positions withdrawn")
        else:
            self.pos[key] = full - liq
            self.pend[key] = Pend()
        vx, vy = amounts(liq, p, lo, up)
        self.op_dust()
        q = min(max(p, rp(lo)), rp(up))
        tx = D("1e-15") * (D(abs(s["X"])) + liq / q * 4)
        ty = D("1e-15") * (D(abs(s["Y"])) + liq * q * 4)
        self.m.near(D(s["X"]) - D(self.pool.X), vx, tx, "a withdrawal pays what its liquidity is worth")
        self.m.near(D(s["Y"]) - D(self.pool.Y), vy, ty, "a withdrawal pays what its liquidity is worth")
        c = self.last_claim
        self.printed("x_sent", "y_sent", vx + c["X_fee"] + c["X_adj"], vy + c["Y_fee"] + c["Y_adj"], "withdrawal")
        self.judge()
        self.unaffected(others, "withdrawal")

    def payouts(self, exclude=None):
        """what every other position would be paid for fees if it were touched now"""
        if self.r.random() > 0.3 or len(self.pos) > 8:
            return None
        out = {}
        for key in self.pos:
            if key == exclude:
                continue
            out[key] = self.claim(key)
        return out

    def claim(self, key):
        q = self.clone()
        P = self.mod.Pool
        save, self.pool = self.pool, q
        try:
            self.attempt(lambda: q.withdraw(key[0], float(self.pos[key]), P.tick_to_rP(key[1]), P.tick_to_rP(key[2])), "a withdrawal")
        finally:
            self.pool = save
        return {k: D(getattr(self.pool, k)) - D(getattr(q, k)) for k in POTS + ("X", "Y")}

    def unaffected(self, before, what):
        if before is None:
            return
        for key, w in before.items():
            now = self.claim(key)
            for k in w:
                d = self.dust_x if k[0] == "X" else self.dust_y
                tol = d + abs(w[k]) * D("1e-11") + (self.pos[key] * self.fgmax[k] * D("2e-14") if k in POTS else 0)
                self.m.near(now[k], w[k], tol, f"a {what} does not change what other positions are paid", lambda: f"{key} {k}")

    def pick_swap(self):
        r = self.r
        x_in = r.random() < 0.5
        g = self.pool.global_state
        p, t = D(g.rP), g.tick
        k = r.random()
        o = None
        if r.random() < 0.7:
            o = r.choice([
                float(p) * (1 + r.uniform(-0.2, 0.2)),
                float(p) * math.exp(r.gauss(0, 1) * self.width * 1e-4),
                float(p),
                math.nextafter(float(p), 0), math.nextafter(float(p), 1e9),
                float(p) * (1 + r.uniform(-1, 1) * 1e-9),
                float(rp(r.choice(sorted(self.edges()) or [0]))),
            ])
        need = D(0)
        if k < 0.35 and self.pos:
            # aim at an active tick (or at a point beside it)
            e = [x for x in sorted(self.edges(), reverse=x_in) if (x <= t if x_in else x > t)]
            if e:
                goal = r.choice(e[:4])
                ref = Ref(self.pos, t, p, x_in, D(10) ** 30, D(self.fee), 0, None)
                for ins, L, din, f, pl, ad, p0, p1 in ref.segs:
                    if (rp(goal) >= p0) if x_in else (rp(goal) <= p0):
                        break
                    need += din + f
                    if (p1 <= rp(goal)) if x_in else (p1 >= rp(goal)):
                        break
                need = D(float(need)) * (1 + r.choice([D(0), D(0), D("1e-16"), D("-1e-16"), D("1e-15"), D("-1e-15"), D("1e-12"), D("-1e-12"), D("1e-6"), D("-1e-6")]))
        if need <= 0:
            v = D(self.pool.Y if not x_in else self.pool.X) + self.total() * (p if not x_in else 1 / p) * D(self.width) * D("1e-4")
            need = v * D(10 ** r.uniform(-4, 0.7)) if k < 0.9 else v * D(10 ** r.uniform(-17, -8))
        a = float(need)
        if a <= 0:
            a = 1.0
        return x_in, a, o

    def run_swap(self, pool, x_in, a, o):
        f = pool.execute_swap_from_X if x_in else pool.execute_swap_from_Y
        return f(a) if o is None else f(a, o)

    def drains(self, pool, x_in, a, o):
        """the order takes all of a reserve, to within rounding"""
        g = pool.global_state
        ref = Ref(self.pos, g.tick, D(g.rP), x_in, D(a), D(self.fee), D(self.c), None if o is None else D(o))
        have = D(pool.Y if x_in else pool.X)
        dust = self.dust_y if x_in else self.dust_x
        return have - ref.plain <= 4 * dust + D("2e-12") * ref.plain

    def swap(self):
        x_in, a, o = self.pick_swap()
        m, r, p = self.m, self.r, self.pool
        self.trace.append(f"swap {'X' if x_in else 'Y'} {a!r} oracle={o!r}")
        s = self.snap()
        before = self.clone()
        ref = Ref(self.pos, s["tick"], D(s["rP"]), x_in, D(a), D(self.fee), D(self.c), None if o is None else D(o))
        others = None
        v = self.attempt(lambda: self.run_swap(p, x_in, a, o), "a swap", lambda: self.drains(before, x_in, a, o))
        if v is None:
            self.pool = before
            m.hit("refused swaps that drain a reserve")
            return
        sx, sy, adj, fee, avg, end = v
        edge = self.edge_case(ref, x_in, a)
        if edge:
            # a remainder of rounding size may have been swapped in the next segment
            ref.scale_x += self.total() / ref.p
            ref.scale_y += self.total() * ref.p
        self.add_dust(ref.scale_x, ref.scale_y)
        self.op_dust()
        paid, got = (sx, -sy) if x_in else (sy, -sx)
        tin = D("4e-15") * (ref.scale_x if x_in else ref.scale_y) + D("1e-12") * ref.paid + D(a) * D("1e-15")
        tout = D("8e-15") * (ref.scale_y if x_in else ref.scale_x) + D("5e-12") * ref.plain
        who = lambda: f"swap {'X' if x_in else 'Y'} {a!r} oracle {o!r}"
        m.near(paid, ref.paid, tin, "a swap takes what the curve says", who)
        m.ok(D(paid) <= D(a) * (1 + D("4e-16")), "a swap takes no more than offered", who)
        if ref.full:
            m.near(paid, D(a), tin, "a swap fills the whole order while there is liquidity", who)
        else:
            m.hit("swaps exhausting liquidity")
        # what it takes to move the price out by rounding: marginal price times input tolerance
        if ref.segs:
            pm = max(max(g[6], g[7]) for g in ref.segs), min(min(g[6], g[7]) for g in ref.segs)
            tout += tin * (pm[0] ** 2 if x_in else 1 / pm[1] ** 2)
        m.near(got, ref.out, tout, "a swap pays what the curve and the adjustment say", who)
        m.near(adj, ref.plain - ref.out, tout * 2, "the adjustment is what the formula says", who)
        m.ok(adj >= 0 and got >= 0 and fee >= 0 and paid >= 0, "amounts of a swap are not negative", who)
        m.near(fee, D(paid) * D(self.fee), tin, "the fee is the fee rate of what was paid", who)
        if o is None or self.c == 0 or (o >= s["rP"] if x_in else o <= s["rP"]):
            m.ok(adj == 0, "no adjustment without an oracle ahead", who)
        # conservation
        P = self.snap()
        i, j = ("X", "Y") if x_in else ("Y", "X")
        c1 = D("2e-15") * (abs(D(s[i])) + abs(D(P[i])) + abs(D(s[i + "_fee"])) + D(paid)) * (len(ref.segs) + 1)
        m.near(D(P[i]) - D(s[i]) + D(P[i + "_fee"]) - D(s[i + "_fee"]), D(paid), c1, "what was paid is in the reserve and the fee pot", who)
        m.near(D(P[i + "_fee"]) - D(s[i + "_fee"]), D(fee), c1, "the fee is in the fee pot", who)
        c2 = D("2e-15") * (abs(D(s[j])) + abs(D(P[j])) + abs(D(s[j + "_adj"])) + D(got)) * (len(ref.segs) + 1)
        m.near(D(s[j]) - D(P[j]) - (D(P[j + "_adj"]) - D(s[j + "_adj"])), D(got), c2, "what was paid out left the reserve", who)
        m.near(D(P[j + "_adj"]) - D(s[j + "_adj"]), D(adj), c2, "the adjustment is in the adjustment pot", who)
        m.ok(P[j + "_fee"] == s[j + "_fee"] and P[i + "_adj"] == s[i + "_adj"], "the other pots are untouched", who)
        # price
        m.ok(P["rP"] <= s["rP"] if x_in else P["rP"] >= s["rP"], "the price moves in the direction of the swap", who)
        tp = ref.p * (D("1e-14") * (len(ref.segs) + 1))
        if ref.segs:
            L = ref.segs[-1][1]
            tp += tin * ref.p ** 2 / L if x_in else tin / L
            for g in ref.segs[-2:]:
                tp = max(tp, tin * ref.p ** 2 / g[1] if x_in else tin / g[1])
        m.near(P["rP"], ref.p, tp, "the price ends where the curve says", who) if not edge else m.hit("swaps ending within rounding of a tick")
        m.ok(avg is None or paid == 0 or abs(avg - ((got / paid) if x_in else (paid / got if got else math.inf))) <= abs(avg) * 1e-9 or got == 0, "average price reported is paid per received", who)
        m.ok(abs(end - P["rP"] ** 2) <= 1e-12 * end, "end price reported is the price", who)
        # accrue
        kf, kh = ("xf", "yh") if x_in else ("yf", "xh")
        pf, ph = (("X_fee", "Y_adj") if x_in else ("Y_fee", "X_adj"))
        for inside, L, din, f, pl, ad, p0, p1 in ref.segs:
            for key in inside:
                w, q = self.pend[key], self.pos[key]
                setattr(w, kf, getattr(w, kf) + f * q / L)
                setattr(w, kh, getattr(w, kh) + (pl - ad) * q / L)
            self.grow[pf] += f / L
            self.grow[ph] += (pl - ad) / L
            self.potsum[pf] += f
            self.potsum[ph] += abs(pl) * D("0.01") + abs(pl - ad)
        for pot in POTS:
            self.fgmax[pot] = max(self.fgmax[pot], self.grow[pot])
        if x_in:
            self.out_y += ref.plain
        else:
            self.out_x += ref.plain
        m.hit("swaps crossing ticks", 1 if ref.crossed else 0)
        m.hit("swaps over gaps", 1 if ref.gaps else 0)
        m.hit("swaps passing the oracle", 1 if ref.at_oracle else 0)
        m.hit("adjusted swaps", 1 if adj > 0 else 0)
        self.judge()
        if ref.segs and r.random() < 0.3:
            self.meta(before, x_in, a, o, paid, got, ref, tin, tout)

    def edge_case(self, ref, x_in, a):
        """the order ends within rounding of the end of a segment"""
        tin = D("4e-15") * (ref.scale_x if x_in else ref.scale_y) + D("1e-12") * ref.paid + D(a) * D("1e-15")
        if not ref.segs:
            return False
        if not ref.full:
            return D(a) - ref.paid <= tin * 4
        inside, L, din, f, pl, ad, p0, p1 = ref.segs[-1]
        for t in self.edges():
            g = rp(t)
            room = abs(L * (1 / g - 1 / p1) if x_in else L * (g - p1))
            if room <= tin * 4:
                return True
        return False

    def meta(self, before, x_in, a, o, paid, got, ref, tin, tout):
        m, r = self.m, self.r
        save = self.pool
        try:
            # split in parts
            q = copy.deepcopy(before)
            self.pool = q
            k = r.randint(2, 4)
            tot_in = tot_out = 0.0
            for i in range(k):
                part = a / k if i < k - 1 else a - sum([a / k] * (k - 1))
                if part <= 0:
                    continue
                keep = copy.deepcopy(q)
                v = self.attempt(lambda: self.run_swap(q, x_in, part, o), "a swap", lambda: self.drains(keep, x_in, part, o))
                if v is None:
                    return
                tot_in += v[0] if x_in else v[1]
                tot_out -= v[1] if x_in else v[0]
            if ref.full:
                m.near(tot_in, D(paid), tin * (k + 1), "splitting an order pays the same")
                m.near(tot_out, D(got), tout * (k + 2), "splitting an order receives the same")
            # and back
            q = copy.deepcopy(save)
            self.pool = q
            if got > 0:
                v = self.attempt(lambda: self.run_swap(q, not x_in, got, o), "a swap", lambda: self.drains(save, not x_in, got, o))
                if v is None:
                    return
                back = -(v[1] if not x_in else v[0])
                pm = max(max(g[6], g[7]) for g in ref.segs) if ref.segs else D(1)
                m.ok(D(back) <= D(paid) * (1 - D(self.fee)) + tin * 4, "swapping there and back does not profit", lambda: f"{paid!r} -> {got!r} -> {back!r}")
        finally:
            self.pool = save

    def exits(self):
        """everyone leaves, in some order, on a copy"""
        save, pos, pend = self.pool, dict(self.pos), dict(self.pend)
        self.pool = self.clone()
        self.trace.append("(copy) everyone withdraws")
        order = sorted(self.pos)
        self.r.shuffle(order)
        P = self.mod.Pool
        for key in order:
            self.attempt(lambda: self.pool.withdraw(key[0], float(self.pos[key]), P.tick_to_rP(key[1]), P.tick_to_rP(key[2])), "a full withdrawal")
            del self.pos[key], self.pend[key]
            self.op_dust()
            self.judge()
        g = self.pool.global_state
        self.m.ok(not self.pool.active_ticks and not self.pool.positions and g.L == 0, "a pool everyone left is empty")
        self.pool, self.pos, self.pend = save, pos, pend
        self.trace.pop()

    def hostile(self):
        r, P = self.r, self.mod.Pool
        p = self.pool
        lo, up = self.pick_range()
        a, b = P.tick_to_rP(lo), P.tick_to_rP(up)
        u = r.choice(self.users)
        x, y = self.scale / a, self.scale * b
        self.refused(lambda: self.pool.execute_swap_from_X(0.0), "swap of nothing from X")
        self.refused(lambda: self.pool.execute_swap_from_Y(0.0), "swap of nothing from Y")
        self.refused(lambda: self.pool.execute_swap_from_X(-x), "negative swap from X")
        self.refused(lambda: self.pool.execute_swap_from_Y(-y, a), "negative swap from Y")
        self.refused(lambda: self.pool.deposit(u, -x, y, a, b), "deposit of negative X")
        self.refused(lambda: self.pool.deposit(u, x, -y, a, b), "deposit of negative Y")
        self.refused(lambda: self.pool.deposit(u, x, y, b, a), "deposit into an inverted range")
        self.refused(lambda: self.pool.deposit(u, x, y, a, a), "deposit into an empty range")
        self.refused(lambda: self.pool.withdraw(u, -1.0, a, b), "negative withdrawal")
        if self.pos:
            key = r.choice(sorted(self.pos))
            a, b = P.tick_to_rP(key[1]), P.tick_to_rP(key[2])
            q = float(self.pos[key])
            self.refused(lambda: self.pool.withdraw(key[0], q + 1, a, b), "withdrawal of more than the position")
            self.refused(lambda: self.pool.withdraw(key[0], -q, a, b), "negative withdrawal of the position")
            for v in ("mallory", key[0].upper()):
                self.refused(lambda: self.pool.withdraw(v, 1.0, a, b), "withdrawal from another user's position")
            c = P.tick_to_rP(key[2] + self.spacing)
            if (key[0], key[1], key[2] + self.spacing) not in self.pos:
                self.refused(lambda: self.pool.withdraw(key[0], 1.0, a, c), "withdrawal from a range never deposited")

    def run(self):
        r = self.r
        self.maxtotal = D(0)
        self.potsum = dict.fromkeys(POTS, D(0))
        self.grow = dict.fromkeys(POTS, D(0))
        self.judge()
        n = r.choice([6, 12, 20, 30, 50])
        for i in range(r.randint(1, 4)):
            self.deposit()
        for i in range(n):
            k = r.random()
            if k < 0.22:
                self.deposit()
            elif k < 0.36:
                self.withdraw()
            elif k < 0.93:
                self.swap()
            elif k < 0.97:
                self.hostile()
            else:
                self.exits()
        self.exits()
        return self.trace[0]


# ----------------------------------------------------------------------------------------------------------
# formulas


def formulas(mod, m, r, trace):
    P = mod.Pool
    eps = D("2.3e-16")
    for _ in range(12):
        t = r.choice([0, 1, -1, r.randint(-30, 30), r.randint(-5000, 5000), r.randint(-200000, 200000)])
        trace.append(f"tick {t}")
        f = P.tick_to_rP(t)
        e = rp_exact(t)
        m.near(f, e, e * eps * (16 + abs(t)), "root price of a tick")
        m.ok(P.tick_to_rP(t + 1) > f, "root prices grow with the tick")
        for l2r in (False, True):
            m.ok(P.rP_to_tick(f, l2r) == t, "tick of the root price of a tick is the tick", lambda: f"{t} {l2r} {P.rP_to_tick(f, l2r)}")
            n = P.tick_to_rP(t + 1)
            v = r.choice([f + (n - f) * r.random(), math.nextafter(f, 1e99), math.nextafter(n, 0)])
            if f < v < n:
                got = P.rP_to_tick(v, l2r)
                m.ok(got == (t + 1 if l2r else t), "tick of a price is the one that brackets it", lambda: f"{v!r} {l2r} {got} expected {t}(+1)")
        sp = r.choice([1, 2, 3, 10, 60, 100, r.randint(1, 500)])
        pool = P("A", 1, "B", 1, f, tick_spacing=sp)
        lo = t // sp * sp
        up = -(-t // sp) * sp
        m.ok(pool.global_state.tick == lo and pool.global_state.rP == P.tick_to_rP(lo), "new pool starts on the allowed tick at or below its price", lambda: f"{t} {sp} {pool.global_state}")
        for l2r, want in ((False, lo), (True, up)):
            m.ok(pool.tick_to_possible_tick(t, l2r) == want, "allowed tick beside a tick", lambda: f"{t} {sp} {l2r}")
            m.ok(pool.rP_to_possible_tick(f, l2r) == want, "allowed tick beside a price", lambda: f"{f!r} {sp} {l2r} got {pool.rP_to_possible_tick(f, l2r)} expected {want}")
        # a range, a price and liquidity
        w = r.choice([1, 2, 10, 100, 1000, 20000])
        ta = t + (r.randint(-w * 2, w) if r.random() < 0.4 else -r.randint(0, w))
        tb = ta + r.randint(1, w)
        a, b = P.tick_to_rP(ta), P.tick_to_rP(tb)
        A, B = D(a), D(b)
        if t <= ta:
            f = min(f, a)
        L = 10 ** r.uniform(-2, 9)
        p = D(f)
        q = min(max(p, A), B)
        trace.append(f"range {ta},{tb} L={L!r} rP={f!r}")
        x, y = P.x_from_L_rP_rng(L, f, a, b), P.y_from_L_rP_rng(L, f, a, b)
        ex, ey = D(L) * (1 / q - 1 / B), D(L) * (q - A)
        m.near(x, ex, ex * 8 * eps + D(L) / q * 4 * eps, "X worth of liquidity")
        m.near(y, ey, ey * 8 * eps + D(L) * q * 4 * eps, "Y worth of liquidity")
        m.near(P._x_from_L_rP_rng(L, t, ta, tb), *xy_tick(L, t, ta, tb)[0], "X worth of liquidity at ticks")
        m.near(P._y_from_L_rP_rng(L, t, ta, tb), *xy_tick(L, t, ta, tb)[1], "Y worth of liquidity at ticks")
        cx = 1 + 4 * q / (B - q) if q < B else D(0)
        cy = 1 + 4 * q / (q - A) if q > A else D(0)
        back = P.liq_from_x_y_rP_rng(x, y, f, a, b)
        m.near(back, D(L), D(L) * eps * 8 * (2 + cx + cy), "liquidity of the amounts is the liquidity", lambda: f"{L!r} {f!r} {a!r} {b!r}")
        # with too much of one token the other decides
        more = r.choice([(1, 3.0), (3.0, 1)])
        back = P.liq_from_x_y_rP_rng(x * more[0], y * more[1], f, a, b)
        if A < p < B:
            m.near(back, D(L), D(L) * eps * 8 * (2 + cx + cy), "liquidity is limited by the scarcer token")
        if p <= A:
            m.near(P.liq_from_x_y_rP_rng(x, 5.0, f, a, b), D(L), D(L) * eps * 8 * (2 + cx), "below the range only X counts")
        if p >= B:
            m.near(P.liq_from_x_y_rP_rng(5.0, y, f, a, b), D(L), D(L) * eps * 8 * (2 + cy), "above the range only Y counts")
        if A < p < B:
            kk = 40 * eps
            # bounds back from amounts
            m.near(P.rPa_from_L_rP_y(L, f, y), A, q * kk, "lower bound from liquidity")
            m.near(P.rPb_from_L_rP_x(L, f, x), B, B * B / q * kk, "upper bound from liquidity")
            va = P.rPa_from_x_y_rP_rPb(x, y, f, b)
            m.near(va, A, q * kk * (2 + cx + cy + (B / (B - q)) * (1 + (q - A) / (B - q))), "lower bound from amounts")
            # y / (y - (p - a) p x): the denominator is y p / b
            vb = P.rPb_from_x_y_rP_rPa(x, y, f, a)
            m.near(vb, B, B * kk * (B / q) * (2 + cx + cy), "upper bound from amounts")
        # moves
        g = f * (1 + r.choice([-1, 1]) * 10 ** r.uniform(-7, -0.5))
        G = D(g)
        dx, dy = P.dX_from_L_drP(L, f, g), P.dY_from_L_drP(L, f, g)
        m.near(dx, D(L) * (1 / G - 1 / p), D(L) / min(p, G) * 8 * eps, "X of a price move")
        m.near(dy, D(L) * (G - p), D(L) * max(p, G) * 8 * eps, "Y of a price move")
        m.near(P.rP_new_from_L_dX(L, f, dx), G, max(G, p) * 16 * eps * max(1, G / p), "price after a change of X")
        m.near(P.rP_new_from_L_dY(L, f, dy), G, max(G, p) * 16 * eps, "price after a change of Y")
        c = r.choice([0.0, 0.5, 1.0, 1.25, 1.5, 2.0, 3.0])
        o = f * (1 + r.uniform(-0.5, 0.5))
        O, C = D(o), D(c)
        lo_, hi_ = min(p, G), max(p, G)
        if c == 1:
            hx, hy = D(L) / O * (p / G).ln(), D(L) * O * (G / p).ln()
        else:
            hx = D(L) / powq(O, C) * (powq(G, C - 1) - powq(p, C - 1)) / (1 - C)
            hy = D(L) * powq(O, C) * (powq(G, 1 - C) - powq(p, 1 - C)) / (1 - C)
        tx = D(L) * powq(hi_ / O, C) / lo_ * 64 * eps * (1 + powq(O / lo_, C) )
        ty = D(L) * powq(O / lo_, C) * hi_ * 64 * eps
        m.near(P.dX_from_L_drP_hmm(L, f, g, c, o), hx, tx * 4, "X of an adjusted price move")
        m.near(P.dY_from_L_drP_hmm(L, f, g, c, o), hy, ty * 4, "Y of an adjusted price move")
        m.states.add((t, ta, tb, round(math.log(L), 3)))
    return trace[0]


def xy_tick(L, t, ta, tb):
    eps = D("2.3e-16")
    q = min(max(rp(t), rp(ta)), rp(tb))
    L = D(L)
    k = 16 + D(max(abs(ta), abs(tb), abs(t))) * D("0.04")
    return (L * (1 / q - 1 / rp(tb)), L / q * k * eps), (L * (q - rp(ta)), L * rp(tb) * k * eps)


# ----------------------------------------------------------------------------------------------------------
# driver


def scenario(prop, mod, mon, seed, idx, trace):
    r = random.Random(f"{prop}:{seed}:{idx}")
    if prop == "C31":
        return Hist(mod, mon, r, trace).run()
    return formulas(mod, mon, r, trace)


def worker(prop, seed, w, nw, limit, deadline, q):
    signal.signal(signal.SIGALRM, _alarm)
    mon = Mon()
    mod = load()
    bad, samples, done = [], [], 0
    i = w
    try:
        while i < limit and time.time() < deadline and len(bad) < 20:
            trace = []
            try:
                s = scenario(prop, mod, mon, seed, i, trace)
                if len(samples) < 2:
                    samples.append(f"{s} ... {len(trace) - 1} ops")
            except Violation as e:
                bad.append((i, str(e), list(trace)))
            except Hang:
                bad.append((i, "terminates: still running after 20 s", list(trace)))
            except Exception as e:
                tb = e.__traceback__
                where = []
                while tb:
                    where.append(f"{os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_lineno}")
                    tb = tb.tb_next
                bad.append((i, f"unexpected {type(e).__name__}: {e} at {' '.join(where[-4:])}", list(trace)))
            done += 1
            i += nw
    finally:
        q.put((done, bad, samples, mon.n, mon.ext, list(mon.states), i < limit))


def drive(prop, seed, limit, seconds):
    nw = min(8, os.cpu_count() or 1)
    q = Queue()
    deadline = time.time() + seconds
    ps = [Process(target=worker, args=(prop, seed, w, nw, limit, deadline, q)) for w in range(nw)]
    for p in ps:
        p.start()
    done, bad, samples, n, ext, states, cut = 0, [], [], {}, {}, set(), False
    for _ in ps:
        d, b, s, mn, me, st, c = q.get(timeout=seconds + 120)
        done += d
        bad += b
        samples += s
        cut = cut or (c and not b)
        states.update(st)
        for k, v in mn.items():
            n[k] = n.get(k, 0) + v
        for k, v in me.items():
            ext[k] = max(ext.get(k, v), v)
    for p in ps:
        p.join()
    bad.sort(key=lambda b: b[0])
    return done, bad, samples, n, ext, states, cut


CHECKS = {
    # scenarios and seconds: quick, thorough
    "C31": ((6000, 240), (120000, 780)),
    "C32": ((20000, 120), (400000, 780)),
}
NONZERO = {
    "C31": ["material claims", "swaps crossing ticks", "swaps over gaps", "swaps passing the oracle", "adjusted swaps", "swaps exhausting liquidity", "whole positions withdrawn", "a full withdrawal is accepted"],
    "C32": ["tick of a price is the one that brackets it", "upper bound from amounts", "Y of an adjusted price move"],
}


def main():
    cmd = sys.argv[1]
    if cmd == "replay":
        spec = json.load(open(sys.argv[2]))
        signal.signal(signal.SIGALRM, _alarm)
        mon, trace = Mon(), []
        try:
            scenario(spec["property"], load(), mon, spec["seed"], spec["index"], trace)
            print("\n".join(trace))
            print("no violation")
        except (Violation, Hang) as e:
            print("\n".join(trace))
            print("VIOLATED", e)
            sys.exit(1)
        return
    prop = sys.argv[2]
    if cmd == "explore":
        seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
        t = time.time()
        done, bad, samples, n, ext, states, cut = drive(prop, seed, int(sys.argv[3]), 3600)
        for k in sorted(n):
            print(f"{n[k]:10d} {k}")
        for k in sorted(ext):
            print(f"{ext[k]:.3e} {k}")
        kinds = {}
        for i, what, tr in bad:
            kinds.setdefault(what.split(":")[0], []).append((i, what, tr))
        for k, v in kinds.items():
            print(f"BAD {len(v)}x {k}: #{v[0][0]} {v[0][1][:400]}")
            for l in v[0][2][:1] + v[0][2][-3:]:
                print("      ", l[:200])
        print(f"{done} scenarios, {len(states)} states, {len(bad)} bad, {time.time() - t:.1f} s")
        return
    tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    limit, seconds = CHECKS[prop][1 if tier == "thorough" else 0]
    t = time.time()
    done, bad, samples, n, ext, states, cut = drive(prop, seed, limit, seconds)
    missing = [k for k in NONZERO[prop] if not n.get(k)] if not bad else []
    os.makedirs(HERE + "/evidence/replays", exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(n.values()),
            "distinct_nontrivial": len(states),
            "scenarios": done,
            "cut_short_by_time": cut,
            "rule": "one evaluation = one monitor verdict on a step of a generated scenario; distinct = "
            + ("distinct pool states (liquidity, price, tick, growth, reserves, pots) reached" if prop == "C31" else "distinct (tick, range, liquidity) combinations evaluated"),
            "samples": samples[:12],
            "observed": dict(sorted(n.items())),
            "extremes": ext,
            "known_findings": [],
        },
        "assumptions": [
            "an operation that raises counts as refused",
            "tolerances are those of double precision at the sizes involved; liquidity is whole units",
        ],
        "wall_s": round(time.time() - t, 3),
        "violations": len(bad),
    }
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f)
    if bad:
        for k, (i, what, tr) in enumerate(bad[:5]):
            path = f"{HERE}/evidence/replays/{prop}-{k}.txt"
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "index": i, "what": what, "trace": tr}, f, indent=1)
            print(f"{prop}: {what}")
            print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    if done == 0 or missing:
        print(f"nothing evaluated: {missing}")
        sys.exit(2)
    print(f"{prop} {tier}: {done} scenarios, {sum(n.values())} evaluations, {len(states)} distinct, {time.time() - t:.1f} s: held")


if __name__ == "__main__":
    main()
