"""Reference for the adaptation of the differential weight F."""
import math


class FModel(object):
    """Its documented shrinking and growing, written independently."""
    LOW, HIGH, SINGLE, POWER, GAP = 0.89, 0.87, 0.89, 0.88, 3

    def __init__(self, F, CR, Np, adaptive):
        self.crit = math.sqrt((1.0 - CR/2.0)/Np)
        self.adaptive = bool(adaptive)
        self.seq = isinstance(F, (list, tuple))
        lo, hi = F if self.seq else (F, F)
        if self.seq and lo == 0: lo, self.adaptive = self.crit, False
        self.lo = self.lo0 = float(lo)
        self.hi = self.hi0 = float(hi)
        self.limited = False

    def down(self):
        if not self.adaptive: return
        if not self.seq:
            new = self.SINGLE*self.lo
            if new > self.crit: self.lo = self.hi = new
            else: self.limited = True
        elif self.LOW*self.lo > self.crit: self.lo *= self.LOW
        elif self.HIGH*self.hi > self.GAP*self.lo: self.hi *= self.HIGH
        else: self.limited = True

    def up(self):
        if not self.adaptive: return
        self.limited = False
        if not self.seq:
            self.lo = self.hi = min(self.lo*self.SINGLE**-self.POWER, self.lo0)
        elif self.hi < self.hi0: self.hi = min(self.hi*self.HIGH**-self.POWER, self.hi0)
        elif self.lo < self.lo0: self.lo = min(self.lo*self.LOW**-self.POWER, self.lo0)


class StopModel(object):
    """
    When a run ends, given for each generation the challenge results. Only
    usable for histories whose progress judgement is certain.
    """
    def __init__(self, cfg, targetFraction=0.02):
        self.cfg = cfg
        self.fm = FModel(cfg['F'], cfg['CR'], cfg['Np'], cfg['adaptive'])
        self.target = targetFraction*cfg['Np']
        self.first = True
        self.dwell = 0
        self.gens = 0
        self.why = 'maxiter' if cfg['maxiter'] == 0 else None

    def generation(self, score, best):
        """Score None: not certain either way. Returns True if the run goes on."""
        cfg = self.cfg
        self.gens += 1
        if cfg.get('goalSSE') and best < cfg['goalSSE']:
            self.why = 'goal'
            return False
        progress = self.first or score > self.target
        if not self.first: assert score == 0 or score > self.target*1.0001, score
        self.first = False
        if progress:
            self.fm.up()
            self.dwell = 0
        else:
            self.fm.down()
            if not cfg['bitterEnd'] and self.fm.limited:
                self.dwell += 1
                if self.dwell > cfg['dwellByGrave']:
                    self.why = 'dwell'
                    return False
        if self.gens == cfg['maxiter']:
            self.why = 'maxiter'
            return False
        return True
